"""C07: multivariate distributions - densities, marginal/profile densities when
components are left out, and all equivalent ways to specify a covariance.

Explored: dimensions 2-4 x scale assignments (up to 13 orders of magnitude
apart) x correlation structures x all specification forms x all subsets of
left-out components x all permutations of the components x lattice of
evaluation points.  Reference: scipy / closed forms in rescaled variables,
own multilinear interpolation for numerical distributions (lib/refdist)."""
import itertools, math
import numpy as np, scipy.stats as st
import mc, refdist
from flavio.statistics import probability as pr

CORR = {2: [[[1, 0], [0, 1]], [[1, .5], [.5, 1]], [[1, -.999], [-.999, 1]]],
        3: [[[1, .3, -.2], [.3, 1, .1], [-.2, .1, 1]], [[1, .4, .4], [.4, 1, .4], [.4, .4, 1]], [[1, 0, 0], [0, 1, .9], [0, .9, 1]]],
        4: [[[1, .1, .2, .3], [.1, 1, -.1, .05], [.2, -.1, 1, .6], [.3, .05, .6, 1]]]}
SCALES = [(1, 1, 1, 1), (1e-9, 3., 1e-5, 2e4), (1e-10, 2e-10, 3e-10, 1e-11), (1e6, 1e7, 1e5, 1e6)]
CVS = [(0., 0., 0., 0.), (1.5, -2., 3., -.5)]


def forms(R, s):
    n = len(s)
    C = np.outer(s, s) * R
    up = lambda M: [[float(M[i][j]) if j >= i else 0. for j in range(n)] for i in range(n)]
    out = [('cov', dict(covariance=C)), ('cov-list', dict(covariance=C.tolist())), ('cov-upper', dict(covariance=up(C))),
           ('cov-upper-array', dict(covariance=np.array(up(C)))),
           ('std-corr', dict(standard_deviation=list(s), correlation=R)), ('std-corr-list', dict(standard_deviation=np.array(s), correlation=np.asarray(R).tolist())),
           ('std-corr-upper', dict(standard_deviation=list(s), correlation=up(np.asarray(R))))]
    off = {R[i][j] for i in range(n) for j in range(n) if i != j}
    if len(off) == 1:
        x = off.pop()
        x = int(x) if x == int(x) else float(x)      # numpy scalars are not a documented form
        out.append(('std-number', dict(standard_deviation=list(s), correlation=x)))
        if x == 0:
            out.append(('std', dict(standard_deviation=list(s))))
            out.append(('std-int', dict(standard_deviation=list(s), correlation=0)))
    return out


def ref_logpdf(z, R, s):
    """log density at standardised coordinates z"""
    return float(st.multivariate_normal(np.zeros(len(z)), R).logpdf(z)) - sum(math.log(x) for x in s)


POINTS = [(0, 0, 0, 0), (1, -.5, .3, 2), (-2, 1, 0, -.1), (.1, .2, -3, 1), (3, 3, 3, -3)]


def mvn(c, item):
    n, R, s, cv, fname, kw, perm = item
    R = np.array(R, float)
    key = 'normal/%s/%d/%r/%r/%r' % (fname, n, R.tolist(), s, perm)
    c.state(); c.trace()
    mean = [a * b for a, b in zip(cv, s)]
    d = pr.MultivariateNormalDistribution(mean if fname != 'cov' else np.array(mean), **kw)
    C = np.outer(s, s) * R
    c.expect(np.allclose(np.asarray(d.covariance) / np.outer(s, s), R, rtol=1e-9, atol=1e-12), key, 'covariance %r instead of %r' % (np.asarray(d.covariance).tolist(), C.tolist()))
    c.expect(np.allclose(np.asarray(d.correlation), R, rtol=1e-9, atol=1e-12), key, 'correlation %r' % (d.correlation,))
    c.expect(np.allclose(np.asarray(d.standard_deviation) / s, 1, rtol=1e-9), key, 'standard deviations %r' % (d.standard_deviation,))
    for k in (1, 2):
        c.expect(np.allclose(np.asarray(d.get_error_left(nsigma=k)) / s, k, rtol=1e-9) and np.allclose(np.asarray(d.get_error_right(nsigma=k)) / s, k, rtol=1e-9), key, 'errors')
    c.expect(np.allclose(np.asarray(d.error_left) / s, 1) and np.allclose(np.asarray(d.error_right) / s, 1), key, 'errors')
    c.expect(np.allclose((np.asarray(d.support[0]) - mean) / s, -6) and np.allclose((np.asarray(d.support[1]) - mean) / s, 6), key, 'support %r' % (d.support,))
    pts = [np.array(p[:n]) for p in POINTS]
    full = []
    for z in pts:
        x = np.array(mean) + z * s
        full.append(float(d.logpdf(x)))
        want = ref_logpdf(z, R, s)
        tol = 1e-7 * max(1, abs(want)) + 1e-6 * (np.max(np.abs(np.linalg.inv(R))) > 100) * abs(want)
        c.expect(abs(full[-1] - want) < tol, key, 'logpdf at %r is %r instead of %r' % (z, full[-1], want))
        c.expect(abs(float(d.logpdf(list(x))) - full[-1]) < 1e-12 * max(1, abs(full[-1])), key, 'logpdf of a list differs')
    arr = np.asarray(d.logpdf(np.array([np.array(mean) + z * s for z in pts])))
    c.expect(arr.shape == (len(pts),) and np.allclose(arr, full, rtol=1e-9), key, 'logpdf of several points %r instead of %r' % (arr, full))
    for m in range(1, n):
        for keep in itertools.combinations(range(n), m):
            ex = tuple(i for i in range(n) if i not in keep)
            k = key + '/without%r' % (ex,)
            Rr, sr = R[np.ix_(keep, keep)], [s[i] for i in keep]
            r = d.reduce_dimension(exclude=ex)
            c.expect(isinstance(r, pr.NormalDistribution) == (m == 1), k, 'reduced distribution is a %s' % type(r).__name__)
            if m == 1:
                c.expect(abs(r.standard_deviation / sr[0] - 1) < 1e-9 and np.ndim(r.central_value) == 0 and abs(r.central_value - mean[keep[0]]) <= 1e-9 * abs(mean[keep[0]]), k, 'reduced distribution %r' % r)
            else:
                c.expect(np.allclose(np.asarray(r.covariance) / np.outer(sr, sr), Rr, rtol=1e-9, atol=1e-12) and np.allclose(np.asarray(r.central_value), [mean[i] for i in keep], rtol=1e-9, atol=0), k, 'reduced distribution %r' % r)
            for z in pts:
                zz = z[list(keep)]
                x = [mean[i] + z[i] * s[i] for i in keep]
                want = ref_logpdf(zz, Rr, sr)
                tol = 1e-7 * max(1, abs(want)) + 1e-6 * (np.max(np.abs(np.linalg.inv(Rr))) > 100) * abs(want)
                got = float(np.squeeze(d.logpdf(x, exclude=ex)))
                c.expect(abs(got - want) < tol, k, 'logpdf at %r is %r instead of %r' % (zz, got, want))
                g2 = float(np.squeeze(d.logpdf(np.array(x), exclude=list(ex))))
                c.expect(abs(g2 - got) < 1e-10 * max(1, abs(got)), k, 'exclude as a list differs: %r' % g2)
                dl = float(np.squeeze(d.delta_logpdf(x, exclude=ex)))
                w0 = want - ref_logpdf(0 * zz, Rr, sr)
                c.expect(abs(dl - w0) < 1e-7 * max(1, abs(w0)) + 1e-6 * (np.max(np.abs(np.linalg.inv(Rr))) > 100) * abs(w0), k, 'delta_logpdf at %r is %r instead of %r' % (zz, dl, w0))
    c.expect(d.reduce_dimension(exclude=()) is d or np.allclose(d.reduce_dimension(exclude=()).covariance, d.covariance), key, 'reduction by nothing')


def grids(thorough):
    x1, x2, x3 = np.linspace(0, 3, 7), np.linspace(-1e-9, 1e-9, 5), np.linspace(10, 14, 4)
    rs = np.random.RandomState(3)
    for xi in ([x1, x2], [x2, x3], [x1, x2, x3], [x3, x1, x2]):
        sh = tuple(len(x) for x in xi)
        y = .2 + rs.rand(*sh)
        yield 'rand', xi, y, None
        yz = y.copy()
        yz[0] = 0
        yz[..., -1] = 0
        yield 'zeros', xi, yz, None
        yield 'cv', xi, y, [float(x[1] * .4 + x[2] * .6) for x in xi]


def mvnum(c, item):
    name, xi, y, cv, form = item
    n = len(xi)
    key = 'numerical/%s/%s/%r' % (name, form, y.shape)
    c.state(); c.trace()
    if form == 'array':
        args = ([x.copy() for x in xi], y.copy())
    elif form == 'list':
        args = ([list(map(float, x)) for x in xi], y.tolist())
    elif form == 'bounds':
        args = ([[float(x[0]), float(x[-1])] for x in xi], y.copy())
    else:
        args = ([[float(x[0]), float(x[-1])] if i % 2 else x for i, x in enumerate(xi)], 7. * y)
    d = pr.MultivariateNumericalDistribution(*args, central_value=cv)
    ref = refdist.RMVNum(xi, y)
    want_cv = cv if cv is not None else ref.central
    c.expect(np.allclose(np.asarray(d.central_value, float), want_cv, rtol=1e-12, atol=0), key, 'central value %r instead of %r' % (d.central_value, want_cv))
    c.expect(np.allclose(d.support[0], [x[0] for x in xi], rtol=1e-12) and np.allclose(d.support[1], [x[-1] for x in xi], rtol=1e-12), key, 'support %r' % (d.support,))
    fr = [-.1, 0., .13, .5, .77, 1., 1.2]
    pts = [p for k, p in enumerate(itertools.product(fr, repeat=n)) if k % (1 if n == 2 else 5) == 0]
    def close(a, b):
        a, b = float(a), float(b)
        if a < -1e90 and b < -1e90:
            return True
        return a == b or abs(a - b) < 1e-7 * max(1, abs(a))
    def at(p, keep):
        return [xi[i][0] + p[i] * (xi[i][-1] - xi[i][0]) for i in keep]
    full = list(range(n))
    with np.errstate(all='ignore'):
        got = []
        for p in pts:
            x = at(p, full)
            got.append(float(d.logpdf(x)))
            w = ref.logpdf(x, full) if name != 'zeros' else None
            if w is not None:
                c.expect(close(got[-1], w), key, 'logpdf at %r is %r instead of %r' % (x, got[-1], w))
            elif not all(0 <= t <= 1 for t in p):
                c.expect(got[-1] == -np.inf, key, 'logpdf outside the lattice is %r' % got[-1])
            elif p[0] < .1 or p[-1] > .8:
                c.expect(got[-1] < -1e50, key, 'logpdf where the density vanishes is %r' % got[-1])
        arr = np.asarray(d.logpdf(np.array([at(p, full) for p in pts])))
        c.expect(arr.shape == (len(pts),) and all(close(a, b) for a, b in zip(arr, got)), key, 'logpdf of several points differs')
        dl = [float(d.delta_logpdf(at(p, full))) for p in pts[::3]]
        l0 = float(d.logpdf(d.central_value))
        c.expect(all(close(a, b - l0) for a, b in zip(dl, got[::3])), key, 'delta_logpdf')
        if name == 'zeros':
            return
        for m in range(1, n):
            for keep in itertools.combinations(range(n), m):
                ex = tuple(i for i in range(n) if i not in keep)
                k = key + '/without%r' % (ex,)
                r = d.reduce_dimension(exclude=ex)
                c.expect(isinstance(r, pr.NumericalDistribution) == (m == 1), k, 'reduced distribution is a %s' % type(r).__name__)
                c.expect(np.allclose(np.ravel(r.central_value), [want_cv[i] for i in keep], rtol=1e-12) and (m > 1 or np.ndim(r.central_value) == 0), k, 'central value %r' % (r.central_value,))
                for p in pts[::4]:
                    x = at(p, keep)
                    w = ref.logpdf(x, keep)
                    g = float(np.squeeze(d.logpdf(x, exclude=ex)))
                    c.expect(close(g, w), k, 'logpdf at %r is %r instead of %r' % (x, g, w))
                    g2 = float(np.squeeze(d.logpdf(x, exclude=list(ex))))
                    c.expect(close(g, g2), k, 'exclude as a list differs')
                    w0 = w - ref.logpdf([want_cv[i] for i in keep], keep)
                    c.expect(close(float(np.squeeze(d.delta_logpdf(x, exclude=ex))), w0), k, 'delta_logpdf at %r' % x)


def from_pd(c):
    for s in ((1., 1.), (1e-9, 40.)):
        d = pr.MultivariateNormalDistribution([2 * s[0], -s[1]], np.outer(s, s) * [[1, .4], [.4, 1]])
        n = pr.MultivariateNumericalDistribution.from_pd(d, nsteps=101)
        c.state(); c.trace()
        c.expect(np.allclose(n.central_value, d.central_value), 'from_pd/%r' % (s,), 'central value')
        for z in itertools.product((-2, -.5, 0, 1.1, 2.5), repeat=2):
            x = np.array(d.central_value) + np.array(z) * s
            a, b = float(n.logpdf(x)), float(d.logpdf(x))
            c.expect(abs(a - b) < .02, 'from_pd/%r' % (s,), 'log density at %r: %r instead of %r' % (z, a, b))


def rejects(c):
    M = pr.MultivariateNormalDistribution
    bad = [('no-covariance', lambda: M([1, 2])), ('not-positive', lambda: M([1, 2], [[1, 2], [2, 1]])),
           ('not-positive-std', lambda: M([1, 2], standard_deviation=[1, 1], correlation=[[1, 1.1], [1.1, 1]])),
           ('singular', lambda: M([1, 2, 3], standard_deviation=[1, 1, 1], correlation=-.6)),
           ('uneven', lambda: pr.MultivariateNumericalDistribution([[0, 1, 3], [0, 1, 2]], np.ones((3, 3))))]
    for k, f in bad:
        c.state()
        try:
            f()
        except (ValueError, AssertionError):
            c.trans()
        else:
            c.fail('reject/' + k, 'invalid specification accepted')


def run(c):
    c.assumptions = ['dimensions up to 4 (normal) and 3 (numerical)']
    items = []
    for n in (2, 3, 4):
        for R in CORR[n]:
            for s in SCALES:
                for cv in CVS:
                    perms = list(itertools.permutations(range(n)))
                    if not c.thorough:
                        perms = perms[:6] if n < 4 else perms[:4]
                    for perm in perms:
                        Rp = [[R[i][j] for j in perm] for i in perm]
                        sp = [float(s[i]) for i in perm]
                        cp = [cv[i] for i in perm]
                        for fname, kw in forms(np.array(Rp), sp):
                            if not c.thorough and perm != perms[0] and fname not in ('cov', 'cov-upper', 'std-corr-upper'):
                                continue
                            items.append((n, Rp, sp, cp, fname, kw, perm))
    mc.parallel(c, mvn, items)
    it2 = [(a, b, y, cv, f) for a, b, y, cv in grids(c.thorough) for f in ('array', 'list', 'bounds', 'mixed')]
    mc.parallel(c, mvnum, it2, chunk=1)
    from_pd(c)
    rejects(c)
    c.extra['normal_specifications'] = len(items)
    c.sample(repr(items[0])[:300]); c.sample(repr(items[-1])[:300])
