"""C05: random numbers follow the distribution they are drawn from.

The random generator is the environment: it is replaced by a scripted one that
enumerates its outcomes systematically (the quantiles of a Kronecker lattice,
for every call site its own), so that the set of draws is determined and
its distribution function can be compared with the reference within the
discrepancy of the enumerated set - for every distribution of the grid, single
and array draws, constraint stores and prediction uncertainties."""
import math
import numpy as np, scipy.stats as st
import mc, distgrid, rng, c04
import flavio
from flavio.statistics import probability as pr


MODES = ('kronecker', 'stratified')


def refcdf(label, d):
    r = c04.reference(label)
    if r.cdf is not None:
        return lambda x: np.asarray(r.cdf(np.asarray(x, float)), float), 0.
    lo, hi = [float(t) for t in d.support]
    xs = np.linspace(lo, hi, 20001)
    tol = 0.
    if isinstance(d, pr.NumericalDistribution):
        xs = np.unique(np.concatenate([xs, np.asarray(d.x, float)]))
        tol = float(np.max(d.y_norm) * np.max(np.diff(np.asarray(d.x, float))))
        dens = r.pdf(xs) if r.pdf is not None else np.exp(d.logpdf(xs))
        if r.pdf is not None:
            tol += .01
    else:
        with np.errstate(all='ignore'):
            dens = np.exp(r.logpdf(xs))
    dens = np.nan_to_num(dens)
    cum = np.concatenate([[0], np.cumsum((dens[1:] + dens[:-1]) / 2 * np.diff(xs))])
    cum /= cum[-1]
    return lambda x: np.interp(x, xs, cum), tol


def ks(draws, cdf):
    x = np.sort(np.ravel(draws))
    F = cdf(x)
    n = len(x)
    return max(np.max(np.abs(F - np.arange(1, n + 1) / n)), np.max(np.abs(F - np.arange(n) / n)))


def check(c, item):
    label, make = item
    c.state()
    d = make()
    kind = label.split('(')[0]
    K = lambda w: '%s/%s' % (label, w)
    N = 4096 if c.thorough else 1024
    if kind.startswith(('gg', 'gamma')) and 'scipy_dist' in d.__dict__:
        d = make()
    A, S = [], []
    for mode in MODES:
        with rng.scripted(rng.Script(mode=mode)):
            d = make()          # constructed under the script: frozen scipy objects capture the generator
            A.append(np.asarray(d.get_random(size=N)))
        with rng.scripted(rng.Script(mode=mode)):
            d = make()
            S.append([d.get_random() for i in range(N // 2)])
    a, singles = A[0], S[0]
    with rng.scripted():
        d = make()
        s1, s0, s7 = d.get_random(size=1), d.get_random(), d.get_random(size=7)
    c.trace(N + N // 4)
    c.expect(a.shape == (N,), K('shape'), 'get_random(size=%d) has shape %r' % (N, a.shape))
    c.expect(np.shape(s1) == (1,) and np.shape(s7) == (7,), K('shape'), 'get_random(size=1), (size=7) have shapes %r %r' % (np.shape(s1), np.shape(s7)))
    c.expect(np.shape(s0) == (), K('shape'), 'get_random() returns an object of shape %r' % (np.shape(s0),))
    if kind == 'delta':
        c.expect(np.all(a == d.central_value) and all(s == d.central_value for s in singles), K('value'), 'delta distribution draws %r' % set(a))
        return
    if kind == 'discrete':
        vals = np.arange(d.lowest_value, d.highest_value + 1)
        for what, x in (('array', a), ('single', np.array(singles))):
            u, n = np.unique(x, return_counts=True)
            c.expect(set(u) == set(vals) and np.max(np.abs(n / len(x) - 1 / len(vals))) < .02, K(what), 'frequencies %r' % dict(zip(u, n)))
        return
    cdf, tol = refcdf(label, d)
    lim = tol + (.01 if not c.thorough else .004)
    for what, X in (('array', A), ('single', S)):
        X = [np.asarray(x, float).ravel() for x in X]
        x = X[0]
        # (the two enumerations have different serial structure; a wrong distribution deviates in both)
        dist = min(ks(x, cdf) for x in X)
        extra = (.02 if what == 'single' else 0) + (.01 if kind == 'asym' else 0)
        c.expect(dist < lim + extra, K(what), 'the enumerated draws (%s) deviate from the distribution by %.4f' % (what, dist))
        lo, hi = [float(t) for t in d.support]
        if kind not in ('normal', 'asym', 'lognormal', 'halfnormal', 'gausslimit') and not kind.startswith('gamma'):
            c.expect(x.min() >= lo - 1e-9 * (hi - lo) and x.max() <= hi + 1e-9 * (hi - lo), K('range'), 'draws outside the support')
    if kind in ('gammapos', 'gammacount', 'gammalimit') or kind.startswith('gg'):
        c.expect(a.min() >= 0, K('positive'), 'negative draw from a distribution restricted to positive values')


def mv(c, item):
    label, make = item
    c.state()
    K = lambda w: '%s/%s' % (label, w)
    N = 6561 if c.thorough else 2187
    d0 = make()
    n = len(d0.central_value)
    with rng.scripted():
        d = make()
        a = np.asarray(d.get_random(size=N))
        one = np.asarray(d.get_random())
        s1 = np.asarray(d.get_random(size=1))
    c.trace(N)
    c.expect(a.shape == (N, n), K('shape'), 'get_random(size=%d) has shape %r' % (N, a.shape))
    c.expect(one.shape == (n,) and s1.shape == (1, n), K('shape'), 'shapes %r %r' % (one.shape, s1.shape))
    if isinstance(d, pr.MultivariateNormalDistribution):
        cov = np.asarray(d.covariance)
        sd = np.sqrt(np.diag(cov))
        z = (a - np.asarray(d.central_value)) / sd
        c.expect(np.max(np.abs(z.mean(axis=0))) < .01, K('mean'), 'means deviate by %r sigma' % z.mean(axis=0))
        C = z.T @ z / N
        c.expect(np.max(np.abs(C - cov / np.outer(sd, sd))) < .03, K('cov'), 'correlation of the draws %r' % C)
        for i in range(n):
            c.expect(ks(z[:, i], st.norm.cdf) < .02, K('marginal'), 'marginal %d deviates by %r' % (i, ks(z[:, i], st.norm.cdf)))
    else:
        # probability of every cell of the lattice
        edges = [np.concatenate([[x[0] - (x[1] - x[0]) / 2], (x[1:] + x[:-1]) / 2, [x[-1] + (x[1] - x[0]) / 2]]) for x in d.xi]
        H, _ = np.histogramdd(a, bins=edges)
        want = np.asarray(d.y) / np.sum(d.y)
        c.expect(H.sum() == N, K('range'), '%d draws outside the lattice' % (N - H.sum()))
        c.expect(np.max(np.abs(H / N - want)) < .004, K('cells'), 'cell frequencies deviate by %r' % np.max(np.abs(H / N - want)))
        for i in range(n):
            f = (a[:, i] - edges[i][0]) / (edges[i][1] - edges[i][0])
            f = f - np.floor(f)
            c.expect(ks(f, lambda x: np.clip(x, 0, 1)) < .05, K('cell'), 'positions within cells not uniform')
        # joint distribution of the positions within a cell (enumeration without serial structure)
        with rng.scripted(rng.Script(mode='stratified')):
            b = np.asarray(make().get_random(size=N))
        c.trace(N)
        F = np.array([((b[:, i] - edges[i][0]) / (edges[i][1] - edges[i][0])) % 1. for i in range(n)])
        for i in range(n):
            for j in range(i):
                H, _, _ = np.histogram2d(F[i], F[j], bins=4, range=[(0, 1), (0, 1)])
                c.expect(np.max(np.abs(H * 16 / N - 1)) < .5, K('cell-joint'), 'positions of components %d, %d within cells not independent: %r' % (j, i, (H * 16 / N).round(2).tolist()))


def store(c):
    """draws of a constraint store: marginals and correlations of all
    parameters; several constraints are drawn independently"""
    from flavio.classes import ParameterConstraints
    def make():
        pc = ParameterConstraints()
        pc.add_constraint(['a'], pr.NormalDistribution(1., .2))
        pc.add_constraint(['b', 'c'], pr.MultivariateNormalDistribution([2., -1.], [[.04, .012], [.012, .01]]))
        pc.add_constraint(['d'], pr.UniformDistribution(0., 3.))
        pc.add_constraint(['e', 'f', 'g'], pr.MultivariateNormalDistribution([0., 5., 1.], [[1., .5, 0], [.5, 2., .3], [0, .3, .5]]))
        pc.add_constraint(['f'], pr.NormalDistribution(7., .5))     # replaces one component
        pc.add_constraint(['h'], pr.AsymmetricNormalDistribution(0, 1., 2.))
        return pc
    mean = dict(a=1., b=2., c=-1., d=0., e=0., f=7., g=1.)
    sd = dict(a=.2, b=.2, c=.1, d=3 / math.sqrt(3), e=1., f=.5, g=math.sqrt(.5))
    corr = {('b', 'c'): .012 / .02, ('e', 'g'): 0., ('a', 'b'): 0, ('e', 'f'): 0, ('f', 'g'): 0, ('a', 'd'): 0, ('d', 'f'): 0, ('c', 'e'): 0}
    N = 2000
    R = {}
    for mode in MODES:
        with rng.scripted(rng.Script(mode=mode)):
            R['array', mode] = make().get_random_all(size=N)
        with rng.scripted(rng.Script(mode=mode)):
            pc = make()
            lst = [pc.get_random_all() for i in range(N // 2)]
            R['single', mode] = {k: np.array([r[k] for r in lst]) for k in lst[0]}
    for what, n in (('array', N), ('single', N // 2)):
        RR = [R[what, m] for m in MODES]
        c.state(); c.trace(n)
        c.expect(set(RR[0]) == set('abcdefgh'), 'store/%s' % what, 'parameters %r' % set(RR[0]))
        for k in mean:
            x = [np.asarray(r[k]) for r in RR]
            c.expect(x[0].shape == (n,), 'store/%s/%s' % (what, k), 'shape %r' % (x[0].shape,))
            m, s = min((abs(y.mean() - mean[k]) / sd[k], y.mean()) for y in x)[1], min((abs(y.std() / sd[k] - 1), y.std()) for y in x)[1]
            c.expect(abs(m - mean[k]) < .03 * sd[k] and abs(s / sd[k] - 1) < .04, 'store/%s/%s' % (what, k), 'mean %r std %r' % (m, s))
        for (p, q), rho in corr.items():
            v = min((abs(np.corrcoef(r[p], r[q])[0, 1] - rho), np.corrcoef(r[p], r[q])[0, 1]) for r in RR)[1]
            c.expect(abs(v - rho) < .1, 'store/%s/corr-%s%s' % (what, p, q), 'correlation %r instead of %r' % (v, rho))
    with rng.scripted():
        e = make().get_1d_errors_random(N=1500)
    for k in sd:
        c.expect(abs(e[k] / sd[k] - 1) < .05, 'store/errors/%s' % k, '1D error %r instead of %r' % (e[k], sd[k]))


def run(c):
    c.assumptions = ['the quality of the generator itself (numpy) is outside the property; the generator is replaced by an enumeration of its '
                     'outcomes with 1024 (thorough 4096) points per stream; deviations below about 1% are not resolved']
    items = distgrid.univariate(pr)
    mc.parallel(c, check, items, chunk=4)
    mc.parallel(c, mv, distgrid.multivariate(pr), chunk=1)
    store(c)
    c.extra['distributions'] = len(items)
    c.sample(items[3][0])
