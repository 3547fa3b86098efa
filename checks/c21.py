"""C21: YAML files with inclusions.

A directory tree of YAML files (including each other, relative to themselves,
upwards, absolutely) is generated; every main document of a bounded grammar is
read in every way (open file with absolute/relative name from two working
directories, unnamed file, text, bytes) and compared with its expansion by a
reference evaluator on the generated syntax trees."""
import os
import io
import tempfile
import pathlib
import itertools
import warnings
import yaml
import mc
import flavio
from flavio.io import yaml as fy

ROOTDIR = None


# syntax trees: ('s', scalar) ('m', [(k, tree)...]) ('l', [trees]) ('i', path) ('M', [element...])
def S(x):
    return ('s', x)


def text(t):
    """flow-style YAML text of a tree"""
    k, v = t
    if k == 's':
        if v is None:
            return 'null'
        if isinstance(v, str):
            return "'%s'" % v.replace("'", "''")
        return repr(v)
    if k == 'm':
        return '{' + ', '.join('%s: %s' % (a, text(b)) for a, b in v) + '}'
    if k == 'l':
        return '[' + ', '.join(text(b) for b in v) + ']'
    if k == 'i':
        return "!include '%s'" % v
    return '!include_merge_list [' + ', '.join(text(S(b)) for b in v) + ']'


class Err(Exception):
    pass


def expand(t, d, files, named=True):
    """value denoted by a tree in a document of directory d (None: unnamed)"""
    k, v = t
    if k == 's':
        return v
    if k == 'm':
        return [('pairs',)] + [(a, expand(b, d, files)) for a, b in v]
    if k == 'l':
        return [expand(b, d, files) for b in v]
    if k == 'i':
        if not os.path.isabs(v):
            if d is None:
                raise Err(ValueError)
            v = os.path.join(d, v)
        v = os.path.normpath(v)
        if v not in files:
            raise Err(OSError)
        return expand(files[v], os.path.dirname(v), files)
    out = []
    for e in v:
        if isinstance(e, str):
            p = e if os.path.isabs(e) else (None if d is None else os.path.join(d, e))
            if p is not None and os.path.normpath(p) in files:
                p = os.path.normpath(p)
                out += expand(files[p], os.path.dirname(p), files)
                continue
        out.append(e)
    return out


def norm(x):
    if isinstance(x, dict):
        return [('pairs',)] + [(k, norm(v)) for k, v in x.items()]
    if isinstance(x, list):
        return [norm(v) for v in x]
    return x


def make_tree():
    r = os.path.realpath(tempfile.mkdtemp(prefix='yaml-', dir=os.environ.get('VERIF_SCRATCH')))
    os.makedirs(r + '/sub/deep')
    os.makedirs(r + '/other')
    os.makedirs(r + '/adir')
    L = lambda *x: ('l', [S(y) for y in x])
    f = {
        'list.yml': L(2, 3),
        'empty.yml': L(),
        'map.yml': ('m', [('z', S(1)), ('a', L('p', 'q'))]),
        'scalar.yml': S('text'),
        'sub/list.yml': L('in sub', 'list.yml'),
        'sub/chain.yml': ('m', [('c', ('i', 'deep/up.yml')), ('d', ('i', '../map.yml'))]),
        'sub/deep/up.yml': ('l', [('i', '../list.yml'), ('i', 'list.yml'), ('i', r + '/scalar.yml')]),
        'sub/deep/list.yml': L('deep'),
        'sub/merge.yml': ('M', ['list.yml', 5, 'deep/mm.yml', '../list.yml', 'adir']),
        'sub/deep/mm.yml': ('M', ['list.yml', '../list.yml', r + '/list.yml', 'absent']),
        'sub/rel': L('named like nothing'),
        'other/broken.yml': ('i', 'absent.yml'),
        'bad.yml': None,
        'other/one.yml': ('l', [('m', [('k', ('M', ['../list.yml', 'one']))]), ('l', [S(1), ('l', [])])]),
    }
    files = {}
    for n, t in f.items():
        p = os.path.join(r, n)
        with open(p, 'w') as o:
            o.write(text(t) if t is not None else '{a: [1, ')
        if t is not None:
            files[p] = t
    return r, files


def documents(r, thorough):
    inc = ['list.yml', 'map.yml', 'scalar.yml', 'empty.yml', 'sub/list.yml', 'sub/chain.yml', 'sub/deep/up.yml', 'sub/merge.yml', './sub/../map.yml',
           'other/one.yml', 'other/broken.yml', 'absent.yml', r + '/map.yml', r + '/sub/chain.yml', r + '/sub/merge.yml', r + '/absent.yml']
    el = ['list.yml', 'sub/merge.yml', r + '/sub/list.yml', 'empty.yml', 'other/one.yml', 'no such file', 7, 'adir', None, 2.5, 'sub/rel', '']
    if thorough:
        el += [r + '/sub/merge.yml', './list.yml', True, r + '/absent', 'rel', 'sub/deep/mm.yml']
    vals = [S(1), S('s'), S(None), ('l', []), ('m', [])] + [('i', p) for p in inc]
    for n in (0, 1, 2, 3):
        vals += [('M', list(x)) for x in itertools.product(el, repeat=n)]
    for v in vals:
        yield v
        yield ('m', [('zz', S(0)), ('key', v), ('b', ('i', 'list.yml') if v[0] == 'M' else S(1))])
        if v[0] != 'M' or len(v[1]) < 3:
            yield ('l', [S(0), v, ('m', [('x', ('l', [v]))])])
            yield ('m', [('o', ('m', [('n', v), ('m', v)])), ('a', S('list.yml'))])
    if thorough:
        small = [S(1), ('i', 'map.yml'), ('i', 'sub/list.yml'), ('M', ['list.yml', 'x', 'sub/list.yml']), ('i', r + '/sub/chain.yml')]
        for a, b, c in itertools.product(small, repeat=3):
            yield ('l', [a, ('m', [('k2', b), ('k1', ('l', [c]))])])
            yield ('m', [('k3', a), ('k2', ('l', [b, b])), ('k1', c)])


WAYS = ['abs', 'rel', 'relsub', 'path', 'fd', 'text', 'bytes', 'bytesio']


def read(way, r, main, txt):
    """read the document in one way; returns (value, number of warnings)"""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        cwd = os.getcwd()
        try:
            if way == 'abs':
                with open(main) as f:
                    v = fy.load_include(f)
            elif way == 'rel':
                os.chdir(r)
                with open(os.path.basename(main)) as f:
                    v = fy.load_include(f)
            elif way == 'relsub':
                os.chdir(r + '/sub/deep')
                with open('../../' + os.path.basename(main), 'rb') as f:
                    v = fy.load_include(f)
            elif way == 'path':
                with pathlib.Path(main).open() as f:
                    v = fy.load_include(f)
            elif way == 'fd':
                with tempfile.TemporaryFile('w+') as f:
                    f.write(txt)
                    f.seek(0)
                    v = fy.load_include(f)
            elif way == 'text':
                v = fy.load_include(txt)
            elif way == 'bytes':
                v = fy.load_include(txt.encode())
            else:
                v = fy.load_include(io.BytesIO(txt.encode()))
        finally:
            os.chdir(cwd)
    return v, [str(x.message) for x in w if 'include' in str(x.message)]


def docs_part(cc, chunk):
    r, files = make_tree()
    for n, doc in enumerate(chunk(r)):
        txt = text(doc)
        main = os.path.join(r, 'main%d.yml' % n)
        with open(main, 'w') as f:
            f.write(txt)
        key0 = txt.replace(r, '$ROOT')[:110]
        for way in WAYS:
            d = r if way in ('abs', 'rel', 'relsub', 'path') else None
            if way == 'fd' and n % 3 or way in ('bytes', 'bytesio') and n % 2:
                continue
            try:
                exp = expand(doc, d, files)
                err = None
            except Err as e:
                err = e.args[0]
            key = '%s/%s' % (way, key0)
            cc.state()
            cc.trans()
            nfd = len(os.listdir('/proc/self/fd'))
            try:
                got, wrn = read(way, r, main, txt)
            except Exception as e:
                if err is None:
                    cc.fail(key, 'reading a valid document fails: ' + mc.exc_text(e), document=txt, way=way)
                elif not isinstance(e, err):
                    cc.fail(key, '%s expected, got %s' % (err.__name__, mc.exc_text(e)), document=txt, way=way)
            else:
                if err is not None:
                    cc.fail(key, '%s expected, got %r' % (err.__name__, got), document=txt, way=way)
                elif norm(got) != exp or repr(norm(got)) != repr(exp):
                    cc.fail(key, 'read as %r, denotes %r' % (norm(got), exp), document=txt, way=way)
            del_fd = len(os.listdir('/proc/self/fd'))
            if del_fd > nfd:
                cc.fail('fd/' + key, 'reading leaves %d files open' % (del_fd - nfd), document=txt, way=way)
            cc.trace()
        os.remove(main)
        if n < 2:
            cc.sample(txt[:200].replace(r, '$ROOT'))


# dumping: all small trees -------------------------------------------------
def trees(depth, scalars):
    if depth == 0:
        for s in scalars:
            yield s
        return
    sub = list(trees(depth - 1, scalars))
    for s in sub:
        yield s
    for n in (0, 1, 2):
        for x in itertools.product(sub, repeat=n):
            yield list(x)
            yield dict(zip(('zb', 'ay'), x))


def dump_part(cc, chunk):
    from collections import OrderedDict

    def od(x):
        if isinstance(x, dict):
            return OrderedDict((k, od(v)) for k, v in x.items())
        if isinstance(x, list):
            return [od(v) for v in x]
        return x
    for t in chunk:
        o = od(t)
        s = yaml.dump(o)
        cc.state()
        cc.trans()
        cc.trace()
        for f in (yaml.safe_load, fy.load_include):
            b = f(s)
            if norm(b) != norm(t):
                cc.fail('dump/%r' % (t,), 'ordered mapping written and read back as %r' % (norm(b),), text=s)


def run(c):
    n = 32
    r0 = '/R00T'
    total = len(list(documents(r0, c.thorough)))

    def chunk_of(i):
        return lambda r: itertools.islice(documents(r, c.thorough), i, None, n)
    mc.parallel(c, docs_part, [chunk_of(i) for i in range(n)], chunk=1)
    c.extra['documents'] = total
    sc = [1, 'x', None, 1e-5] if c.thorough else [1, 'x']
    T = list(trees(2, sc))
    if c.thorough:
        T = T[::7]
    mc.parallel(c, dump_part, [T[i::16] for i in range(16)], chunk=1)
    c.extra['dumped trees'] = len(T)
    # cycles, malformed included files and unsafe tags must raise
    r, files = make_tree()
    with open(r + '/cyc1.yml', 'w') as f:
        f.write('a: !include cyc2.yml')
    with open(r + '/cyc2.yml', 'w') as f:
        f.write('- !include_merge_list [list.yml, cyc3.yml]')
    with open(r + '/cyc3.yml', 'w') as f:
        f.write('[!include cyc1.yml]')
    with open(r + '/mal.yml', 'w') as f:
        f.write('[1, !include bad.yml]')
    with open(r + '/mal2.yml', 'w') as f:
        f.write('!include_merge_list [bad.yml]')
    with open(r + '/uns.yml', 'w') as f:
        f.write('!include uns2.yml')
    with open(r + '/uns2.yml', 'w') as f:
        f.write("!!python/object/apply:os.getcwd []")
    for nme in ('cyc1', 'cyc2', 'cyc3', 'mal', 'mal2', 'uns', 'uns2'):
        c.state()
        try:
            with open(r + '/%s.yml' % nme) as f:
                got = fy.load_include(f)
        except (Exception, RecursionError):
            continue
        c.fail('must-raise/' + nme, 'read as %r instead of raising' % (got,))
    # a likelihood specified through inclusions is the one written out
    obs = ['BR(Bs->mumu)', 'BR(B0->mumu)']
    meas = ['CMS Bs->mumu 2022', 'LHCb Bs->mumu 2022']
    meas = [m for m in meas if m in flavio.Measurement.instances] or None
    par = dict(observables=obs, include_measurements=meas)
    with open(r + '/obs.yml', 'w') as f:
        yaml.dump(obs[:1], f)
    with open(r + '/lik.yml', 'w') as f:
        f.write('observables: !include_merge_list [obs.yml, "BR(B0->mumu)"]\n')
        if meas:
            f.write('include_measurements: !include sub/meas.yml\n')
            with open(r + '/sub/meas.yml', 'w') as g:
                yaml.dump(meas, g)
    from flavio.statistics.likelihood import MeasurementLikelihood
    with open(r + '/lik.yml') as f:
        a = MeasurementLikelihood.load(f)
    b = MeasurementLikelihood(**par)
    x = {o: v for o, v in zip(obs, (3.3e-9, 1.1e-10))}
    c.state()
    c.trace()
    c.expect(list(a.observables) == list(b.observables) and a.get_measurements == b.get_measurements
             and a.log_likelihood_pred(x) == b.log_likelihood_pred(x), 'likelihood', 'likelihood read through inclusions differs')
    c.assumptions.append('merged files contain lists (other contents are outside the property); merge keys (<<) and non-scalar keys are not supported by flavio')
