"""C22: citation bookkeeping.

(A) every sequence (to a depth) of registering, clearing, resetting, entering and
    leaving nested collection scopes (normally or by an exception), on the real
    objects, against a stack-of-sets model;
(B) every interleaving of two processes registering in one collection;
(C) theory_citations of every observable: cold caches vs. after any other
    computations, no leak into the global collection, included in what an
    ordinary prediction registers."""
import os
import itertools
import mc
import phys
import flavio
import flavio.physics.running.masses as masses

ROOT = flavio.citations
KEYS = ['Beneke:2003az', 'Seidel:2004jh']
USE = 'Gambino:2011cq'          # registered by masses.fKsFromMs1
INIT = {'Straub:2018kue'}
OPS = ['r0', 'r1', 'use', 'base', 'bad', 'clear', 'reset', 'in', 'out', 'exc']


def private_root():
    """collections are shared between processes: give each worker its own"""
    global ROOT
    if getattr(private_root, 'pid', None) != os.getpid():
        private_root.pid = os.getpid()
        ROOT = flavio.citations = type(ROOT)(INIT)


class Boom(Exception):
    pass


def observe(obj):
    a = obj.set
    b = set(obj)
    s = str(obj)
    c = set(s.split(',')) if s else set()
    d = set(obj.string.split(',')) if obj.string else set()
    return (frozenset(a), a == b == c == d and len(list(obj)) == len(a))


def model(seq):
    """list of (closed, set) for root and every scope opened; or None if not executable"""
    stack = [0]
    sets = [set(INIT)]
    init = [set(INIT)]
    for o in seq:
        k = stack[-1]
        if o in ('r0', 'r1'):
            sets[k].add(KEYS[int(o[1])])
        elif o == 'use':
            sets[k].add(USE)
        elif o == 'base':
            sets[0].add(KEYS[0])
        elif o == 'clear':
            sets[k] = set()
        elif o == 'reset':
            sets[k] = set(init[k])
        elif o == 'in':
            sets.append(set())
            init.append(set())
            stack.append(len(sets) - 1)
        elif o in ('out', 'exc'):
            if len(stack) == 1:
                return None
            stack.pop()
    return stack, sets


def run_seq(seq):
    ROOT.reset()
    objs = [ROOT]
    msgs = []
    pos = [0]

    def block():
        """execute until the matching 'out' (return) or 'exc' (raise)"""
        while pos[0] < len(seq):
            o = seq[pos[0]]
            pos[0] += 1
            cur = flavio.citations
            if o in ('r0', 'r1'):
                cur.register(KEYS[int(o[1])])
            elif o == 'use':
                masses.fKsFromMs1(1., 4.2, 4)
            elif o == 'base':
                ROOT.register(KEYS[0])
            elif o == 'bad':
                try:
                    cur.register('Nobody:1900xxx')
                    msgs.append('unknown key accepted')
                except KeyError:
                    pass
            elif o == 'clear':
                cur.clear()
            elif o == 'reset':
                cur.reset()
            elif o == 'in':
                try:
                    with flavio.citations.collect() as c:
                        objs.append(c)
                        if flavio.citations is not c:
                            msgs.append('the scope is not the current collection')
                        r = block()
                        if r == 'end':
                            final()
                            return 'end'
                except Boom:
                    pass
                if flavio.citations is not cur:
                    msgs.append('leaving a scope does not restore the enclosing collection')
            elif o == 'out':
                return 'out'
            elif o == 'exc':
                raise Boom()
        return 'end'

    done = []

    def final():
        if not done:
            done.append([observe(x) for x in objs])
            done.append(flavio.citations)
    block()
    final()
    return objs, done, msgs


def seqs(depth):
    for n in range(depth + 1):
        for s in itertools.product(OPS, repeat=n):
            d = 0
            ok = True
            for o in s:
                if o == 'in':
                    d += 1
                elif o in ('out', 'exc'):
                    d -= 1
                    if d < 0:
                        ok = False
                        break
            if ok:
                yield s


def part_a(cc, chunk):
    private_root()
    for s in chunk:
        stack, sets = model(s)
        objs, (obs, cur), msgs = run_seq(s)
        cc.state()
        cc.trans(len(s))
        cc.trace()
        for m in msgs:
            cc.fail('scope/%s' % '-'.join(s), m, history=s)
        if flavio.citations is not ROOT:
            cc.fail('scope-left/%s' % '-'.join(s), 'the root collection is not restored after all scopes are left', history=s)
            import sys
            flavio.citations = ROOT
        if cur is not objs[stack[-1]]:
            cc.fail('current/%s' % '-'.join(s), 'wrong current collection', history=s)
        for i, (o, m) in enumerate(zip(obs, sets)):
            if o[0] != m:
                cc.fail('contents/%s' % '-'.join(s), 'collection %d contains %s, expected %s' % (i, sorted(o[0]), sorted(m)), history=s)
            if not o[1]:
                cc.fail('views/%s' % '-'.join(s), 'set, iteration and string of a collection differ', history=s)


# (B) ------------------------------------------------------------------------
def interleavings(n, m):
    for c in itertools.combinations(range(n + m), n):
        yield [0 if i in c else 1 for i in range(n + m)]


def part_b(cc, it):
    private_root()
    s0, s1, scoped = it
    for sched in interleavings(len(s0), len(s1)):
        ref = set()
        i = [0, 0]
        for w in sched:
            o = (s0, s1)[w][i[w]]
            i[w] += 1
            if o == 'clear':
                ref = set()
            else:
                ref.add(KEYS[int(o[1])])

        def child(cin, cout, script):
            for o in script:
                os.read(cin, 1)
                if o == 'clear':
                    flavio.citations.clear()
                else:
                    flavio.citations.register(KEYS[int(o[1])])
                os.write(cout, b'x')

        with flavio.citations.collect() as c:
            pi, po, qi, qo = os.pipe() + os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(po)
                    os.close(qi)
                    child(pi, qo, s1)
                finally:
                    os._exit(0)
            os.close(pi)
            os.close(qo)
            k = 0
            died = False
            for w in sched:
                if w == 0:
                    o = s0[k]
                    k += 1
                    if o == 'clear':
                        c.clear()
                    else:
                        c.register(KEYS[int(o[1])])
                else:
                    try:
                        os.write(po, b'x')
                    except BrokenPipeError:
                        died = True
                    died = died or not os.read(qi, 1)
            got = c.set
            os.waitpid(pid, 0)
            for f in (po, qi):
                os.close(f)
        cc.state()
        cc.trans(len(sched))
        cc.trace()
        if got != ref or died:
            cc.fail('processes/%s/%s/%s' % ('-'.join(s0), '-'.join(s1), ''.join(map(str, sched))),
                    'two processes registering in one collection: %s, expected %s' % (sorted(got), sorted(ref)),
                    scripts=[s0, s1], schedule=sched)


# (C) ------------------------------------------------------------------------
HIST = {}


def cites(name, args):
    return frozenset(flavio.Observable[name].theory_citations(*args))


def part_c(cc, it):
    private_root()
    name, args = it
    key = '%s%r' % (name, args)
    r = mc.in_fork(cites, name, args)
    cc.state()
    if r[0] != 'ok':
        # the SM prediction fails (judged by C20): the scope must be left all the same
        cc.extra['not evaluated'] = cc.extra.get('not evaluated', 0) + 1
        try:
            cites(name, args)
        except Exception:
            pass
        if flavio.citations is not ROOT:
            cc.fail('error-scope/' + key, 'the collection is not restored after a prediction that failed')
            flavio.citations = ROOT
        return
    fresh = r[1]
    cc.sample([key, sorted(fresh)[:6]])
    ROOT.reset()
    before = ROOT.set
    warm = cites(name, args)              # after everything this worker did before
    again = cites(name, args)
    cc.trans(3)
    cc.trace(3)
    cc.expect(flavio.citations is ROOT and ROOT.set == before, 'leak/' + key,
              'theory_citations changes the global collection: %s' % sorted(ROOT.set ^ before))
    if not (fresh == warm == again):
        cc.fail('history/' + key, 'theory_citations depends on what was computed before: missing %s, additional %s' % (
            sorted(fresh - (warm & again)), sorted((warm | again) - fresh)), observable=name, args=args)
    flavio.sm_prediction(name, *args)
    g = ROOT.set
    cc.expect(g == before | fresh, 'global/' + key,
              'a prediction registers %s in the global collection, theory_citations gives %s' % (sorted(g), sorted(fresh)))
    cc.extra['papers cited'] = sorted(set(cc.extra.get('papers cited', [])) | fresh)
    ROOT.reset()


def run(c):
    c.assumptions.append('python threads share one collection (as designed), so scopes in concurrent threads are outside the property')
    c.assumptions.append('theory_citations evaluated in the SM (as defined); registering from several processes: at most %d operations each' % (3 if c.thorough else 2))
    S = list(seqs(6 if c.thorough else 5))
    chunks = [S[i::64] for i in range(64)]
    mc.parallel(c, part_a, chunks, chunk=1)
    c.extra['operation sequences'] = len(S)
    n = 3 if c.thorough else 2
    scripts = [s for k in range(1, n + 1) for s in itertools.product(['r0', 'r1', 'clear'], repeat=k)]
    mc.parallel(c, part_b, [(a, b, 1) for a in scripts for b in scripts])
    # user-defined initial citations
    cls = type(ROOT)
    x = cls(['my:key', KEYS[0]])
    c.expect(x.set == {'my:key', KEYS[0]}, 'initial', 'initial citations')
    x.register(KEYS[1])
    x.clear()
    c.expect(x.set == set(), 'initial-clear', 'clear removes the default citations as well')
    x.reset()
    c.expect(x.set == {'my:key', KEYS[0]}, 'initial-reset', 'reset restores the default citations')
    c.expect(cls().set == set(), 'initial-shared', 'a new collection must be empty')
    inst = phys.instances()
    if not c.thorough:
        seen = {}
        for nme, a in inst:
            seen.setdefault(nme, []).append(a)
        inst = [(nme, a[len(a) // 2]) for nme, a in seen.items()]
    mc.parallel(c, part_c, inst, chunk=4)
    c.extra['observables'] = len(inst)
    # predictions in worker processes
    for name in ('BR(Bs->mumu)', 'BR(B0->K*gamma)', 'DeltaM_s'):
        fresh = cites(name, ())
        with flavio.citations.collect() as cit:
            flavio.sm_uncertainty(name, N=4, threads=2)
        c.state()
        c.expect(cit.set >= fresh, 'workers/' + name, 'citations of predictions computed in worker processes are lost: %s' % sorted(fresh - cit.set))
