"""C14: names, argument formats and derived observables.

 * every registered observable x every input form x every output form of its
   arguments (and all malformed inputs of a family);
 * all sequences (to a depth) of create / redefine / delete / find operations on
   the named-instance registries, against an insertion-ordered map;
 * all pairs/triples of a set of observables combined by Observable.from_function,
   all calling conventions;
 * the measurement lists of every observable against a brute-force search."""
import itertools, collections, re
import numpy as np
import mc, phys
import flavio


def formats(c, names):
    F = flavio.Observable.argument_format
    for n in names:
        o = flavio.Observable[n]
        args = o.arguments
        c.state()
        key = 'format/%s' % n
        if args is None:
            forms = [n, {'name': n}]
            want = {'tuple': n, 'list': n, 'dict': {'name': n}}
            valss = [()]
        else:
            args = list(args)
            valss = [tuple(1.5 + i for i in range(len(args))), tuple(6 - 2 * i for i in range(len(args))), tuple(np.float64(.25 * (i + 1)) for i in range(len(args)))]
            forms = None
        for vals in valss:
            if args is not None:
                d = dict(zip(args, vals), name=n)
                forms = [(n,) + vals, [n] + list(vals)]
                for perm in itertools.permutations(list(d), len(d)) if len(d) <= 4 else [tuple(d), tuple(d)[::-1]]:
                    forms.append({k: d[k] for k in perm})
                want = {'tuple': (n,) + vals, 'list': [n] + list(vals), 'dict': d}
            for f in forms:
                for fmt in ('tuple', 'list', 'dict', None):
                    fin = dict(f) if isinstance(f, dict) else list(f) if isinstance(f, list) else f
                    got = F(fin, fmt) if fmt else F(fin)
                    w = want[fmt or 'tuple']
                    c.expect(got == w and type(got) is type(w), key, '%r as %s gives %r' % (f, fmt, got), observable=n)
                    c.expect(fin == f, key, 'input modified', observable=n)
                    back = F(got, 'tuple')
                    c.expect(back == want['tuple'], key, 'round trip of %r gives %r' % (f, back), observable=n)
                    if isinstance(got, (dict, list)):
                        got2 = F(fin, fmt)
                        got.clear()
                        c.expect(fin == f and got2 == w, key, 'result shares state with the input', observable=n)
        c.trace()
        bad = [(n, 1.), (n,) + tuple(range(9))] if args is None else [n, (n,), (n,) + vals + (1.,), [n] + list(vals) + [2.], [n]]
        if args is not None and len(args) > 1:
            bad.append((n,) + vals[:-1])
            bad.append({'name': n, args[0]: 1.})
        if args is not None:
            bad.append({'name': n})
        for b in bad:
            try:
                got = F(b)
                c.fail(key + '/bad', '%r accepted: %r' % (b, got), observable=n)
            except (ValueError, KeyError, TypeError):
                c.trans()


def measurements(c, names):
    allm = {}
    for m in flavio.Measurement.instances.values():
        for p in m.all_parameters:
            allm.setdefault(p if isinstance(p, str) else p[0], set()).add(m.name)
    for n in names:
        c.state()
        got = flavio.Observable[n].get_measurements()
        c.expect(len(got) == len(set(got)) and set(got) == allm.get(n, set()), 'measurements/%s' % n, 'measurements of %s: %s instead of %s' % (n, got, allm.get(n)), observable=n)


def registry_seq(c, item):
    clsname, first = item
    from flavio.classes import NamedInstanceClass
    NAMES = ['aa', 'ab(c)', 'x aa']
    if clsname == 'plain':
        class R(NamedInstanceClass):
            pass
        class R2(NamedInstanceClass):
            pass
        make = lambda n: R(n)
    elif clsname == 'Parameter':
        R, R2 = flavio.Parameter, flavio.Observable
        make = lambda n: R(n)
    elif clsname == 'Observable':
        R, R2 = flavio.Observable, flavio.Parameter
        make = lambda n: R(n)
    else:
        R, R2 = flavio.Measurement, flavio.Parameter
        make = lambda n: R(n)
    def start():
        R.clear_all()
        R2.clear_all()
    other = lambda n: R2(n)
    ops = [('create', n) for n in NAMES] + [('del', n) for n in NAMES] + [('delitem', NAMES[0]), ('clear', ''), ('other', NAMES[0]), ('otherclear', ''), ('describe', NAMES[1])]
    depth = 5 if c.thorough else 4
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        start()
        model, model2 = collections.OrderedDict(), {}
        c.state(); c.trace()
        hist = []
        for j in (first,) + rest:
            op, n = ops[j]
            hist.append(op + ' ' + n)
            key = 'registry/%s/%s' % (clsname, '>'.join(hist))
            if op == 'create':
                model[n] = make(n)      # redefinition keeps the position
                c.expect(model[n].name == n and model[n].description == '', key, 'name/description of a new instance')
            elif op == 'describe':
                if n in model:
                    model[n].set_description('text ' + n)
            elif op in ('del', 'delitem'):
                try:
                    if op == 'del':
                        R.del_instance(n)
                    else:
                        del R[n]
                    c.expect(n in model, key, 'deleting a missing instance does not raise')
                    model.pop(n, None)
                except KeyError:
                    c.expect(n not in model, key, 'cannot delete existing instance')
            elif op == 'clear':
                R.clear_all()
                model.clear()
            elif op == 'other':
                model2[n] = other(n)
            else:
                R2.clear_all()
                model2.clear()
            c.expect(list(R.instances.items()) == list(model.items()), key, 'instances %s instead of %s' % (list(R.instances), list(model)), history=hist)
            c.expect(dict(R2.instances) == model2, key, 'instances of another class changed', history=hist)
            for m in NAMES:
                for get in (R.get_instance, R.__getitem__ if False else (lambda x: R[x])):
                    try:
                        v = get(m)
                    except KeyError:
                        v = None
                    c.expect(v is model.get(m), key, 'instance %r: %r' % (m, v), history=hist)
            for rx in ('aa', '^a', r'\(', 'c', ''):
                want = [m for m in model if re.search(rx, m)]
                c.expect(R.find(rx) == want, key, 'find(%r) = %s instead of %s' % (rx, R.find(rx), want), history=hist)


def from_function(c, group):
    P = flavio.default_parameters.get_central_all()
    P2 = dict(P, Vub=P['Vub'] * 1.1, m_b=P['m_b'] * 1.01, tau_B0=P['tau_B0'] * .98)
    W = flavio.WilsonCoefficients()
    W.set_initial(phys.wc_values('WET', 'flavio', size=.01), 4.8, 'WET', 'flavio')
    sm = flavio.WilsonCoefficients()
    names, argss = group
    single = {n: [(flavio.Observable[n].prediction_par(P, sm, *a), flavio.Observable[n].prediction_par(P2, W, *a)) for a in argss] for n in names}
    fns = {2: [('difference', lambda x, y: x - y), ('ratio', lambda x, y: x / y), ('poly', lambda x, y: x * x + 3 * y)],
           3: [('nonsymmetric', lambda x, y, z: x / y - 2 * z)], 1: [('square', lambda x: x * x)]}
    for k in (1, 2, 3):
        for tup in itertools.product(names, repeat=k):
            for fn, f in fns[k]:
                c.state(); c.trace()
                new = 'verif %s %s' % (fn, '|'.join(tup))
                tup_in = list(tup)
                o = flavio.Observable.from_function(new, tup_in, f)
                tup_in[0] = 'changed afterwards'
                key = 'from_function/%s/%s' % (fn, tup)
                args = flavio.Observable[tup[0]].arguments
                c.expect(flavio.Observable[new] is o and o.arguments == args and o.name == new, key, 'new observable %r' % o)
                for ia, a in enumerate(argss):
                    want = f(*[single[n][ia][0] for n in tup])
                    want2 = f(*[single[n][ia][1] for n in tup])
                    kw = dict(zip(args or (), a))
                    got = [flavio.sm_prediction(new, *a), flavio.sm_prediction(new, **kw), flavio.np_prediction(new, sm, *a),
                           o.prediction_par(P, sm, *a), o.prediction_central(flavio.default_parameters, sm, **kw)]
                    c.expect(all(abs(g - want) <= 1e-12 * abs(want) for g in got), key, '%r instead of %r' % (got, want), observables=tup, args=a)
                    got2 = [o.prediction_par(P2, W, *a), o.prediction_par(P2, W, **kw)]
                    c.expect(all(abs(g - want2) <= 1e-12 * abs(want2) for g in got2), key, '%r instead of %r at changed parameters and Wilson coefficients' % (got2, want2), observables=tup, args=a)
                for m in names:
                    c.trans()
                flavio.Observable.del_instance(new)
    # combination of a combination
    f = lambda x, y: x + 2 * y
    flavio.Observable.from_function('verif inner', names[:2], f)
    o = flavio.Observable.from_function('verif outer', ['verif inner', names[0]], lambda x, y: x * y)
    for ia, a in enumerate(argss):
        s = [single[n][ia][0] for n in names]
        want = (s[0] + 2 * s[1]) * s[0]
        got = o.prediction_par(P, sm, *a)
        c.expect(abs(got - want) <= 1e-12 * abs(want), 'from_function/nested/%s' % (names,), '%r instead of %r' % (got, want))
    for bad in (['verif nonexistent', names[0]], [names[0], 'verif nonexistent']):
        try:
            flavio.Observable.from_function('verif bad', bad, f)
            c.fail('from_function/bad/%s' % (bad,), 'unknown observable accepted')
        except ValueError:
            c.trans()
    mixed = [names[0], 'eps_K' if argss != [()] else '<P5p>(B0->K*mumu)']
    try:
        flavio.Observable.from_function('verif bad2', mixed, f)
        c.fail('from_function/mixed/%s' % mixed, 'observables with different arguments accepted')
    except AssertionError:
        c.trans()


GROUPS = [(['eps_K', 'DeltaM_s', 'BR(B+->taunu)', 'BR(B0->K*gamma)'], [()]),
          (['<BR>(B+->pilnu)', '<BR>(B0->Dlnu)', '<BR>(B+->Dtaunu)'], [(3.2, 6.), (4., 10.)]),
          (['dBR/dq2(B0->pilnu)', 'dBR/dq2(B+->Dmunu)', 'dBR/dq2(B0->Denu)'], [(1.5,), (8,)])]


def taxonomy(c):
    cats = ['A', 'A :: B', 'A :: B :: C', 'D', 'D :: B']
    def go(seq):
        class O(flavio.Observable):
            pass
        O.instances = collections.OrderedDict()
        from flavio.classes import tree
        O.taxonomy = tree()
        want = {}
        for n, t in seq:
            o = O.instances.get(n) or O(n)
            o.add_taxonomy(t)
            d = want
            for x in t.split(' :: ') + [n]:
                d = d.setdefault(x, {})
        return O.taxonomy_dict(), want
    for seq in itertools.product(itertools.product(('o1', 'o2'), cats), repeat=3):
        c.state(); c.trace()
        got, want = go(seq)
        c.expect(got == want, 'taxonomy/%s' % (seq,), '%r instead of %r' % (got, want))


def run(c):
    names = list(flavio.Observable.instances)
    items = [('formats', names[i::40]) for i in range(40)] + [('measurements', names[i::16]) for i in range(16)]
    items += [('registry_seq', (k, j)) for k in ('plain', 'Parameter', 'Observable', 'Measurement') for j in range(11)]
    items += [('from_function', g) for g in GROUPS]
    if c.thorough:
        items += [('from_function', (g[0][::-1], g[1])) for g in GROUPS]
    items = items[::-1]
    def do(cs, it):
        r = mc.in_fork(lambda: (globals()[it[0]](cs, it[1]), cs.export())[1])
        if r[0] != 'ok':
            if r[0] == 'exc' and r[2]:
                cs.fail('exception/%s/%s' % (it[0], repr(it[1])[:60]), r[1], item=repr(it)[:500])
                return
            raise mc.HarnessError(str(r))
        d = r[1]
        cs.__init__(cs.prop, cs.tier)
        cs.merge(d)
        cs.sample(repr(it)[:200])
    def one(cs, it):
        sub = cs.sub()
        do(sub, it)
        cs.merge(sub.export())
    mc.parallel(c, one, items, chunk=1)
    taxonomy(c)
