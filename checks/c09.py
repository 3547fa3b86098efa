"""C09: a prediction is a pure function of (observable, arguments, parameters,
Wilson coefficients): no earlier or interleaved call can change it, and no call
changes its inputs.

Reference: the value computed in a process in which nothing has been evaluated
before ("cold").  Explored histories (real code, forked processes):
 * for every code location that reads a parameter (found by tracing the current
   tree), an observable that executes it: base point, the point with that single
   parameter changed, base point again;
 * all observables one after another in both directions;
 * for a set of observables covering all traced code: SM / new physics A / new
   physics B / SM, in all orders."""
import itertools, os, time
import numpy as np
import mc, phys
import flavio

EPS = 3e-4


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or (a != a and b != b) or abs(a - b) <= 1e-11 * max(abs(a), abs(b))


def ev(name, args, par, wc):
    try:
        return flavio.Observable[name].prediction_par(par, wc, *args)
    except Exception as e:
        return 'exc ' + type(e).__name__


def run(c):
    sm = flavio.WilsonCoefficients()
    P = flavio.default_parameters.get_central_all()
    P2 = {k: (v * (1 + EPS) if v else EPS) for k, v in P.items()}
    names = list(flavio.Observable.instances)
    inst = [(n, a) for n in names for a in phys.arg_grid(flavio.Observable[n])]
    byname = {}
    for n, a in inst:
        byname.setdefault(n, []).append(a)
    def perturbed(k):
        p = dict(P)
        p[k] = p[k] * (1 + EPS) if p[k] else EPS
        return p

    from wilson import Wilson
    def mkwc(tag):
        if tag == 'SM':
            return sm
        sgn = {'A': 1, 'B': -1, 'C': 1}[tag]
        if tag == 'C':
            return Wilson(phys.wc_values('SMEFT', 'Warsaw', size=1e-9), 1000., 'SMEFT', 'Warsaw')
        w = flavio.WilsonCoefficients()
        w.set_initial(phys.wc_values('WET', 'flavio', size=.02, sign=sgn), 4.8, 'WET', 'flavio')
        return w

    # ---- phase 1: cold values and code coverage, one fresh process per observable
    def cold_trace(n):
        out = []
        for a in byname[n]:
            rec = set()
            t = time.process_time()
            v = ev(n, a, phys.Trace(P, rec, c.thorough), sm)
            out.append((a, v, rec, time.process_time() - t))
        return out

    def ph1(cs, n):
        r = mc.in_fork(cold_trace, n)
        if r[0] != 'ok':
            raise mc.HarnessError(str(r))
        cs.state(len(r[1]))
        cs.extra.setdefault('_r', []).append((n, r[1]))
    cold, reads, slow = {}, {}, {}
    c1 = c.sub()
    old = mc.LISTCAP
    mc.LISTCAP = 10**9
    mc.parallel(c1, ph1, [n for n in names if n in byname], chunk=4)
    mc.LISTCAP = old
    for n, res in c1.extra.pop('_r'):
        for i, (a, v, rec, t) in enumerate(res):
            slow[n, a] = t
            if i == 0:
                slow[n] = t
                cold[n, a] = v     # only the first one of the process is really cold
            if not isinstance(v, str):
                reads[n, a] = rec
    c.merge(c1.export())
    # ---- cover
    goals = {}
    for na, rec in reads.items():
        for code, k in rec:
            if k in P:
                goals.setdefault(k, {}).setdefault(na, set()).add(code)
    tasks = {}
    for k, inv in goals.items():
        for na in phys.greedy_cover(inv, lambda t: 30 * slow[t]):
            tasks.setdefault(na, []).append(k)
    codecover = phys.greedy_cover({na: {x[0] for x in rec} for na, rec in reads.items()}, lambda t: 10 * slow[t])
    reps = sorted(set(codecover) | {t for t in tasks if len(tasks[t]) > 3})
    c.extra['read_sites'] = sum(len({x for s in inv.values() for x in s}) for inv in goals.values())
    c.extra['perturbation_tasks'] = sum(map(len, tasks.values()))
    c.extra['representatives'] = len(reps)

    # ---- phase 2
    def single(cs, na):
        (n, a), ks = na
        def warm():
            out = []
            for k in ks:
                p = perturbed(k)
                p0 = dict(P)
                v0 = ev(n, a, p0, sm)
                v1 = ev(n, a, p, sm)
                v2 = ev(n, a, p0, sm)
                out.append((v0, v1, v2, p == perturbed(k), p0 == P))
            return out
        def coldk(k):
            return ev(n, a, perturbed(k), sm)
        w = mc.in_fork(warm)
        c0 = mc.in_fork(ev, n, a, dict(P), sm)
        if w[0] != 'ok' or c0[0] != 'ok':
            raise mc.HarnessError(str((w, c0)))
        for k, (v0, v1, v2, u1, u0) in zip(ks, w[1]):
            r = mc.in_fork(coldk, k)
            if r[0] != 'ok':
                raise mc.HarnessError(str(r))
            cs.state(3); cs.trace()
            key = 'single/%s/%s/%s' % (n, a, k)
            cs.expect(same(v1, r[1]), key, '%s%s with changed %s after base point: %r, fresh: %r' % (n, a, k, v1, r[1]),
                      observable=n, args=a, parameter=k)
            cs.expect(same(v0, c0[1]) and same(v2, c0[1]), key + '/base', '%s%s at base point after changing %s: %r/%r, fresh: %r'
                      % (n, a, k, v0, v2, c0[1]), observable=n, args=a, parameter=k)
            cs.expect(u0 and u1, key + '/inputs', 'parameter dictionary modified', observable=n)

    def chain(cs, spec):
        order, par = spec
        seq = [(n, byname[n][0]) for n in names if n in byname and (n, byname[n][0]) in cold
               and (c.thorough or slow[n] < .15)]    # quick: the slow ones only in the histories 'np' and 'single'
        if order == 'backward':
            seq = seq[::-1]
        elif order == 'interleaved':
            seq = seq[::2] + seq[1::2][::-1]
        elif order in (0, 1, 2):
            seq = seq[order::3][::-1]
        def go():
            p0, p2 = dict(P), dict(P2)
            snap = flavio.config.copy() if hasattr(flavio.config, 'copy') else None
            wc0 = repr(sm.wc)
            bad = []
            for n, a in seq:
                if par == 'mixed':
                    ev(n, a, p2, sm)
                v = ev(n, a, p0, sm)
                if not same(v, cold[n, a]):
                    bad.append((n, a, v, cold[n, a]))
            pure = p0 == P and p2 == P2 and repr(sm.wc) == wc0 and flavio.default_parameters.get_central_all() == P
            return bad, pure, snap is None or snap == flavio.config
        r = mc.in_fork(go)
        if r[0] != 'ok':
            raise mc.HarnessError(str(r))
        bad, pure, conf = r[1]
        cs.state(len(seq)); cs.trans(len(seq)); cs.trace()
        for n, a, v, v0 in bad:
            cs.fail('chain/%s/%s/%s/%s' % (order, par, n, a), '%s%s: %r in a long history, fresh process: %r' % (n, a, v, v0),
                    observable=n, args=a, order=order)
        cs.expect(pure, 'chain/%s/%s/inputs' % spec, 'inputs or default parameters modified by predictions')
        cs.expect(conf, 'chain/%s/%s/config' % spec, 'configuration modified by predictions')

    tags = ('SM', 'A', 'B') + (('C',) if c.thorough else ())
    def npitem(cs, na):
        n, a = na
        ref = {}
        for t in tags:
            r = mc.in_fork(lambda: ev(n, a, dict(P), mkwc(t)))
            if r[0] != 'ok':
                raise mc.HarnessError(str(r))
            ref[t] = r[1]
        def go():
            bad = []
            objs = {t: mkwc(t) for t in tags}
            before = {t: objs[t].wc.dict if objs[t].wc is not None else None for t in tags}
            p0 = dict(P)
            for perm in itertools.permutations(tags):
                for t in perm:
                    v = ev(n, a, p0, objs[t])
                    if not same(v, ref[t]):
                        bad.append((perm, t, v))
            after = {t: objs[t].wc.dict if objs[t].wc is not None else None for t in tags}
            return bad, before == after and p0 == P
        r = mc.in_fork(go)
        if r[0] != 'ok':
            raise mc.HarnessError(str(r))
        cs.state(len(tags)); cs.trace()
        cs.trans(1)
        for perm, t, v in r[1][0][:1]:
            cs.fail('np/%s/%s' % (n, a), '%s%s at %s in history %s: %r, fresh: %r' % (n, a, t, perm, v, ref[t]), observable=n, args=a)
        cs.expect(r[1][1], 'np/%s/%s/inputs' % (n, a), 'Wilson coefficients or parameters modified', observable=n)
        if len(set(map(str, ref.values()))) > 1:
            cs.extra['np_sensitive'] = cs.extra.get('np_sensitive', 0) + 1

    # instances whose first evaluation in a fresh process is known only in phase 1
    items = [('chain', ('forward', 'plain')), ('chain', ('backward', 'plain')), ('chain', ('interleaved', 'mixed'))]
    if not c.thorough:
        items[2:] = [('chain', (i, 'mixed')) for i in (0, 1, 2)]
    items += [('np', na) for na in reps]
    items += [('single', (na, tasks[na][i:i + 12])) for na in sorted(tasks, key=lambda t: -len(tasks[t])) for i in range(0, len(tasks[na]), 12)]
    cost = lambda it: slow.get(it[1], 0) * 15 if it[0] == 'np' else slow.get(it[1][0], 0) * 4 * len(it[1][1]) if it[0] == 'single' else 1e9
    items.sort(key=cost, reverse=True)
    def do(cs, it):
        {'chain': chain, 'np': npitem, 'single': single}[it[0]](cs, it[1])
        cs.sample(repr(it))
    mc.parallel(c, do, items, chunk=1)
    c.assumptions.append('the initial state is a process that has imported flavio and evaluated nothing')
