"""C12: what a prediction depends on.

 * get_dependent_parameters_sm: for every observable and argument tuple,
   changing all parameters that are not in the set, at once, leaves the SM
   prediction bit-for-bit unchanged (and if not, the offending ones are found by
   bisection), and every member is a parameter that is really read;
 * get_dependent_wcs: new physics in all sectors that are not listed does not
   change the prediction; the listed ones exist;
 * sm_error_budget: its keys are a partition of the dependent parameters into
   jointly constrained groups, its values the relative standard deviation of the
   predictions when only the group is varied (random points scripted)."""
import re
import numpy as np
import mc, phys
import flavio
from flavio.classes import Observable
from wilson import wcxf
import c11

UNB = {(0.5,), (6.,), (15.,)}


def val(n, a, p, w):
    try:
        return Observable[n].prediction_par(p, w, *a)
    except Exception as e:
        return type(e).__name__


def eq(x, y):
    return x == y or (not isinstance(x, str) and not isinstance(y, str) and x != x and y != y)


def run(c):
    P = flavio.default_parameters.get_central_all()
    sm = flavio.physics.eft._wc_sm
    others = {}
    rel = [1.01, .98]

    def changed(p, keys, k):
        q = dict(p)
        for x in keys:
            q[x] = q[x] * rel[k] if q[x] else .01 * (k + 1)
        return q

    def bisect(n, a, keys, base, k):
        bad = []
        stack = [sorted(keys)]
        while stack and len(bad) < 3:
            ks = stack.pop()
            if eq(val(n, a, changed(P, ks, k), sm), base):
                continue
            if len(ks) == 1:
                bad.append(ks[0])
            else:
                stack += [ks[:len(ks) // 2], ks[len(ks) // 2:]]
        return bad

    B5 = wcxf.Basis['WET', 'flavio'].sectors

    def pars(cc, it):
        n, a = it
        key = '%s%r' % (n, a)
        base = val(n, a, dict(P), sm)
        if isinstance(base, str):
            return
        dep = flavio.functions.get_dependent_parameters_sm(n, *a)
        cc.state(); cc.trace()
        rec = set()
        val(n, a, phys.Trace(P, rec), sm)
        read = {k for _, k in rec}
        extra = set(dep) - read
        cc.expect(not extra, key + '/unused', 'dependent parameters that are never read: %r' % sorted(extra)[:8], observable=n, args=a)
        cc.expect(set(dep) <= set(flavio.Parameter.instances), key + '/parameters', 'not parameters: %r' % sorted(set(dep) - set(flavio.Parameter.instances))[:5])
        indep = set(P) - set(dep)
        for k in range(len(rel) if cc.thorough else 1):
            v = val(n, a, changed(P, indep, k), sm)
            cc.state()
            if not eq(v, base):
                bad = bisect(n, a, indep, base, k)
                cc.expect(not bad and False, key + '/missing', 'depends on %r (not in the dependent parameters): %r -> %r' % (bad, base, v), observable=n, args=a)
            else:
                cc.trans()
        cc.extra['dependent'] = cc.extra.get('dependent', 0) + len(dep)

    def wcs(cc, it):
        n, a = it
        key = '%s%r/wcs' % (n, a)
        base = val(n, a, dict(P), sm)
        if isinstance(base, str):
            return
        dep = flavio.functions.get_dependent_wcs(n, *a)
        cc.state(); cc.trace()
        secs = set()
        for scale, eft, basis, sectors in dep:
            ok = eft in wcxf.EFT.instances and (eft, basis) in wcxf.Basis.instances and scale > 0
            cc.expect(ok, key, 'dependence on %r' % ((scale, eft, basis, sectors),), observable=n)
            if eft == 'SMEFT':      # not defined with new physics given in WET
                cc.extra['smeft_observables'] = cc.extra.get('smeft_observables', 0) + 1
                return
            if sectors == 'all':
                secs |= set(B5)
            else:
                secs |= {sectors} if isinstance(sectors, str) else set(sectors)
        out = {k: v for s in B5 if s not in secs for k, v in phys.wc_values('WET', 'flavio', sectors=(s,), size=1e-2).items()}
        w = flavio.WilsonCoefficients()
        w.set_initial(out, 4.8)
        v = val(n, a, dict(P), w)
        cc.state()
        cc.expect(eq(v, base), key, 'changed by new physics outside the sectors %r: %r -> %r' % (sorted(secs), base, v), observable=n, args=a)
        cc.extra['sectors_outside'] = cc.extra.get('sectors_outside', 0) + len(set(B5) - secs)

    def budget(cc, it):
        n, a, N, conv = it
        D = flavio.default_parameters
        s = c11.Scripted(N, 5)
        D.get_random_all = s
        try:
            if conv:
                r = flavio.sm_error_budget(n, N=N, **dict(zip(Observable[n].arguments or [], a)))
            else:
                r = flavio.sm_error_budget(n, *a, N=N)
        finally:
            del D.get_random_all
        key = 'budget/%r' % (it,)
        cc.state(); cc.trace()
        dep = flavio.functions.get_dependent_parameters_sm(n, *a)
        flat = [p for k in r for p in (k if isinstance(k, tuple) else (k,))]
        cc.expect(sorted(flat) == sorted(dep), key, 'the keys are not a partition of the dependent parameters: missing %r' % sorted(set(dep) ^ set(flat))[:5], observable=n)
        groups = {}
        for k in dep:
            groups.setdefault(id(D._parameters[k][1]), set()).add(k)
        got = {frozenset(k) if isinstance(k, tuple) else frozenset([k]) for k in r}
        cc.expect(got == {frozenset(g) for g in groups.values()}, key, 'groups are not the jointly constrained parameters', observable=n)
        cen = val(n, a, dict(P), sm)
        pts = s.pts
        for k, v in r.items():
            ks = k if isinstance(k, tuple) else (k,)
            ref = np.std([val(n, a, dict(P, **{x: p[x] for x in ks}), sm) for p in pts[:N]]) / abs(cen)
            cc.expect(abs(v - ref) <= 1e-9 * ref + 1e-14, key + '/%s' % (ks[0],), 'error due to %r: %r, from the predictions %r' % (k, v, ref), observable=n, args=a)

    items = []
    for n, a in phys.instances():
        q = len(a) == 1 and len(phys.arg_grid(Observable[n])) > 4
        if not c.thorough and (q and a not in UNB or len(a) == 2 and a == phys.BINS[0]):
            continue
        items.append(('pars', (n, a)))
        if a == phys.arg_grid(Observable[n])[0] or c.thorough:
            items.append(('wcs', (n, (15.,) if q else a)))
    for n, a, N in [('BR(Bs->mumu)', (), 4), ('dBR/dq2(B0->K*mumu)', (16.,), 3), ('<dBR/dq2>(B+->Kmumu)', (15., 17.), 3), ('eps_K', (), 4), ('DeltaM_d', (), 4),
                    ('BR(B0->Dlnu)', (), 3), ('BR(tau->mununu)', (), 3), ('GammaZ', (), 3), ('BR(K+->pinunu)', (), 3), ('a_mu', (), 3), ('FL(B0->K*mumu)', (3.,), 2)]:
        for conv in ((0, 1) if a else (0,)):
            items.append(('budget', (n, a, N, conv)))
    items.sort(key=lambda x: x[0] != 'budget')
    f = dict(pars=pars, wcs=wcs, budget=budget)

    def do(cc, it):
        f[it[0]](cc, it[1])
    mc.parallel(c, do, items, chunk=2)
    c.sample('BR(Bs->mumu): all %d parameters outside of the set changed at once' % len(P))
    c.assumptions.append('dependent parameters are those of the default implementations')
