"""C11: the prediction interface.

 * every observable: all conventions of passing its arguments (positional, all
   keyword orders, mixed) and all entry points give the same value; unknown,
   missing and superfluous arguments are rejected;
 * uncertainties and covariances are the standard deviation / covariance of the
   predictions at the random parameter points, for every number of points,
   every subset of varied parameters, serial and parallel. The random points
   are the environment: they are scripted."""
import itertools, inspect
import numpy as np
import mc, phys
import flavio
from flavio.classes import Observable


def value(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as e:
        return e


def same(x, y):
    if isinstance(x, Exception) or isinstance(y, Exception):
        return type(x) == type(y)
    return x == y or (x != x and y != y)


def conventions(cc, it, P, wcs):
    name, args = it
    o = Observable[name]
    names = list(o.arguments or [])
    key = '%s%r' % (name, args)
    for tag, w in wcs.items():
        ref = value(o.prediction_par, dict(P), w, *args)
        pred = (lambda *a, **k: flavio.np_prediction(name, w, *a, **k))
        forms = [('np_prediction positional', lambda: pred(*args))]
        if tag == 'SM':
            forms.append(('sm_prediction positional', lambda: flavio.sm_prediction(name, *args)))
            forms.append(('sm_prediction keywords', lambda: flavio.sm_prediction(name, **dict(zip(names, args)))))
        orders = list(itertools.permutations(range(len(names)))) if len(names) <= 2 or cc.thorough else [tuple(range(len(names))), tuple(range(len(names)))[::-1]]
        for od in orders:
            kw = {names[i]: args[i] for i in od}
            if names:
                forms.append(('np_prediction keywords %r' % (od,), lambda kw=kw: pred(**kw)))
                if tag == 'SM' or cc.thorough:
                    forms.append(('prediction_central keywords %r' % (od,), lambda kw=kw: o.prediction_central(flavio.default_parameters, w, **kw)))
                    forms.append(('prediction_par keywords %r' % (od,), lambda kw=kw: o.prediction_par(dict(P), w, **kw)))
        for n in range(1, len(names)):
            kw = {names[i]: args[i] for i in range(n, len(names))}
            forms.append(('%d positional' % n, lambda kw=kw, n=n: pred(*args[:n], **kw)))
        forms.append(('prediction_central', lambda: o.prediction_central(flavio.default_parameters, w, *args)))
        for lab, f in forms:
            v = value(f)
            cc.state(); cc.trace()
            cc.expect(same(v, ref), key + '/' + tag + '/' + lab, '%s: %r, prediction_par: %r' % (lab, v, ref), observable=name, args=args)
        # rejected
        bad = [('unknown keyword', lambda: pred(*args, nonsense=1.)), ('superfluous', lambda: pred(*(args + (1.,))))]
        if names and names[0][:2] in ('q2', 'cl', 'cV', 'ph', 'E', 'me'):      # (the coefficients of quarkonium operators are optional)
            bad.append(('missing', lambda: pred(*args[:-1])))
            bad.append(('twice', lambda: pred(*args, **{names[0]: args[0]})))
        if tag == 'SM':
            for lab, f in bad:
                v = value(f)
                cc.trans()
                if not isinstance(v, TypeError):
                    cc.fail(key + '/rejected/' + lab, '%s argument: %r' % (lab, v), observable=name)


OBS = [('BR(Bs->mumu)',), ('<dBR/dq2>(B0->K*mumu)', 15., 17.), ('FL(B0->K*mumu)', 16.), ('eps_K',), ('Rtaul(B->Dlnu)',),
       ('BR(B+->taunu)',), ('DeltaM_s',), ('<BR>(B0->pimunu)', 1., 5.)]
VARY = [['f_Bs'], ['Vcb', 'gamma'], ['f_Bs', 'bag_Bs_1', 'm_W'], ['tau_B+', 'nonexistent parameter'], []]


def plain(o):
    return o[0] if len(o) == 1 else o


def points(n, salt=0):
    """scripted random parameter points: central value plus a deterministic multiple of the error"""
    P = flavio.default_parameters
    cen = P.get_central_all()
    out = []
    for i in range(n):
        d = {}
        for j, (k, v) in enumerate(cen.items()):
            d[k] = v * (1 + 0.01 * (((j + 1) * (i + 1) * 37 + 11 * salt) % 19 - 9) / 9.)
        out.append(d)
    return out


class Scripted(object):
    """stands in for the random generator of parameter constraints"""
    def __init__(self, n, salt=0):
        self.pts = points(n, salt)
        self.single = 0

    def __call__(self, *args, **kw):
        size = args[0] if args else kw.get('size')
        if size is None:
            self.single += 1
            return dict(self.pts[(self.single - 1) % len(self.pts)])
        return {k: np.array([p[k] for p in self.pts[:size]]) for k in self.pts[0]}


def close(x, y, tol=1e-9):
    x, y = np.asarray(x, float), np.asarray(y, float)
    if x.shape != y.shape:
        return False
    return bool(np.all(np.abs(x - y) <= tol * np.sqrt(np.abs(np.multiply.outer(np.diag(y), np.diag(y)))) + 1e-300)) if y.ndim == 2 else bool(abs(x - y) <= tol * abs(y) + 1e-300)


def run(c):
    P = flavio.default_parameters.get_central_all()
    wc = flavio.WilsonCoefficients()
    wc.set_initial(phys.wc_values('WET', 'flavio', size=2e-3), 4.8)
    sm = flavio.physics.eft._wc_sm
    wcs = {'SM': sm, 'NP': wc}
    D = flavio.default_parameters
    cls = type(D)

    def uncertainty(cc, it):
        _, obs, N, threads, w, conv = it
        s = Scripted(max(N, 1))
        D.get_random_all = s
        try:
            a = obs[1:]
            names = Observable[obs[0]].arguments or []
            if conv == 'kw':
                call_a, call_k = (), dict(zip(names, a))
            else:
                call_a, call_k = a, {}
            if w == 'SM':
                v = value(flavio.sm_uncertainty, obs[0], *call_a, N=N, threads=threads, **call_k)
            else:
                v = value(flavio.np_uncertainty, obs[0], wcs[w], *call_a, N=N, threads=threads, **call_k)
        finally:
            del D.get_random_all
        ref = np.std([Observable[obs[0]].prediction_par(p, wcs[w], *a) for p in s.pts[:N]])
        cc.state(); cc.trace()
        cc.expect(not isinstance(v, Exception) and close(v, ref), 'uncertainty/%r' % (it[1:],), 'uncertainty %r, standard deviation of the predictions %r' % (v, ref), item=it)

    def covariance(cc, it):
        _, obs, N, threads, vary, other = it
        s = Scripted(N, 3 if other else 0)
        par_obj = D
        if other:
            par_obj = cls()
            for k in D.all_parameters:
                v = D.get_central(k) * (1.02 if k in ('f_Bs', 'Vcb') else 1)
                par_obj.add_constraint([k], flavio.statistics.probability.DeltaDistribution(v))
        cen = par_obj.get_central_all()
        par_obj.get_random_all = s
        try:
            v = value(flavio.sm_covariance, [plain(o) for o in obs], N=N, threads=threads, **dict(dict(par_vary=vary) if vary != 'default' else {}, **({'par_obj': par_obj} if other else {})))
        finally:
            if not other:
                del D.get_random_all
        def point(p):
            if vary in ('all', 'default'):
                return p
            return dict(cen, **{k: x for k, x in p.items() if k in vary})
        M = np.array([[Observable[o[0]].prediction_par(point(p), sm, *o[1:]) for o in obs] for p in s.pts[:N]])
        ref = np.atleast_2d(np.cov(M.T)) if len(obs) > 1 else np.cov(M.T)
        cc.state(); cc.trace()
        ok = not isinstance(v, Exception) and np.shape(v) == np.shape(ref) and (
            np.allclose(v, ref, rtol=1e-9, atol=1e-12 * np.sqrt(np.abs(np.multiply.outer(np.diag(ref), np.diag(ref)))) if np.ndim(ref) == 2 else 0))
        cc.expect(ok, 'covariance/%r' % (it[1:],), 'covariance %r, of the predictions %r' % (v, ref), item=it)

    items = []
    for n in Observable.instances:
        for a in phys.arg_grid(Observable[n])[:(2 if c.thorough else 1)]:
            if len(a) == 1 and not c.thorough and len(phys.arg_grid(Observable[n])) > 4:
                a = (15.,)
            if len(a) == 2 and a == phys.BINS[0] and not c.thorough:
                a = phys.BINS[2]
            items.append(('conv', (n, a)))
    for obs in OBS:
        for N in (1, 2, 5):
            for w in wcs:
                for threads in (1, 2):
                    for conv in (('pos', 'kw') if len(obs) > 1 else ('pos',)):
                        if threads == 1 or N == 5:
                            items.append(('unc', obs, N, threads, w, conv))
    sets = [[o] for o in OBS[:3]] + [list(x) for x in itertools.permutations(OBS[:3])] + [list(x) for x in itertools.combinations(OBS, 2)] + [OBS, OBS[::-1]]
    for st in sets:
        for vary in ['default', 'all'] + VARY:
            for other in (False, True):
                if other and not (len(st) in (2, 8)) and not c.thorough:
                    continue
                if len(st) == 2 and vary not in ('default', VARY[1], VARY[2]) and not c.thorough:
                    continue
                items.append(('cov', st, 4, 1, vary, other))
        items.append(('cov', st, 3, 2, VARY[2], False))

    def do(cc, it):
        if it[0] == 'conv':
            # the SM only for the slow ones
            conventions(cc, it[1], P, wcs if cc.thorough or len(it[1][1]) == 1 else {'SM': sm})
        elif it[0] == 'unc':
            uncertainty(cc, it)
        else:
            covariance(cc, it)
    mc.parallel(c, do, items, chunk=3)
    c.sample('<dBR/dq2>(B0->K*mumu): (15., 17.) | q2min=15., q2max=17. | q2max=17., q2min=15. | 15., q2max=17.')
    c.assumptions.append('the random parameter points are scripted (their distribution is the subject of C05)')
