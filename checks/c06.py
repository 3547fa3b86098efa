"""C06: convolving distributions gives the distribution of the sum of the
random variables (same: of the deviations from the common central value),
combining gives the normalised product - for every multiset (up to size 3, all
orders) of a set of shapes, uni- and multivariate, at several scales.

Reference: own numerical convolution / product of independently written
densities on an aligned grid."""
import itertools, math
import numpy as np, scipy.stats as st
from scipy.signal import fftconvolve
import mc
from flavio.statistics import probability as pr

A3 = math.sqrt(3)


def shapes(c, s):
    """name -> (constructor, density, lowest deviation, highest deviation)"""
    xs = np.linspace(-4, 5, 181)
    ys = np.exp(-(xs + .6)**2) + .7 * np.exp(-(xs - 1.5)**2 / 1.5)
    ys[0] = ys[-1] = 0
    def asym(x):
        l, r = .5, 1.2
        return 2 / (math.sqrt(2 * math.pi) * (l + r)) * np.exp(-x**2 / 2 / np.where(x < 0, l, r)**2)
    nn = np.trapz(ys, x=xs)
    a = 4.
    return {
        'n': (lambda: pr.NormalDistribution(c, s), st.norm.pdf, -8, 8),
        'N': (lambda: pr.NormalDistribution(c, 2.5 * s), st.norm(0, 2.5).pdf, -20, 20),
        'u': (lambda: pr.UniformDistribution(c, 1.4 * s), lambda x: np.where(abs(x) < 1.4, 1 / 2.8, 0), -1.4, 1.4),
        'a': (lambda: pr.AsymmetricNormalDistribution(c, 1.2 * s, .5 * s), asym, -4, 9),
        'h': (lambda: pr.HalfNormalDistribution(c, 1.5 * s), lambda x: np.where(x >= 0, 2 * st.norm.pdf(x, 0, 1.5), 0), -1, 11),
        'H': (lambda: pr.HalfNormalDistribution(c, -.8 * s), lambda x: np.where(x <= 0, 2 * st.norm.pdf(x, 0, .8), 0), -7, 1),
        'x': (lambda: pr.NumericalDistribution(c + s * xs, ys / s, c), lambda x: np.interp(x, xs, ys / nn, left=0, right=0), -4, 5),
    }


def ref_convolve(dens, h):
    tot, k0 = None, 0
    for f, lo, hi in dens:
        a, b = int(math.floor(lo / h)), int(math.ceil(hi / h))
        y = f(np.arange(a, b + 1) * h)
        if tot is None:
            tot, k0 = y, a
        else:
            tot, k0 = fftconvolve(tot, y) * h, k0 + a
    x = (k0 + np.arange(len(tot))) * h
    return x, tot / np.trapz(tot, x=x)


def compare(c, key, d, x, y, cv, s, central, tol, what):
    """d: result; reference density y/s at cv + s x"""
    c.expect(abs(float(d.central_value) - central) <= 1e-9 * (abs(central) + s), key, '%s: central value %r instead of %r' % (what, d.central_value, central))
    with np.errstate(all='ignore'):
        got = np.nan_to_num(np.exp(np.asarray(d.logpdf(cv + s * x), float)) * s)
    # compare distribution functions (robust at jumps) and densities away from jumps
    F = np.concatenate([[0], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(x))])
    G = np.concatenate([[0], np.cumsum((got[1:] + got[:-1]) / 2 * np.diff(x))])
    e = np.max(np.abs(F - G))
    c.expect(e < tol, key, '%s: distribution function deviates by %.3g' % (what, e))
    c.expect(abs(G[-1] - 1) < tol, key, '%s: normalisation %r' % (what, G[-1]))


def uni(c, item):
    what, combo, cv, s = item
    c.state(); c.trace()
    key = '%s/%s/%g,%g' % (what, ''.join(combo), cv, s)
    if what == 'same':
        sh = shapes(cv, s)
        ds = [pr.DeltaDistribution(cv) if k == 'd' else sh[k][0]() for k in combo]
        before = [repr(d.__dict__.get('y_norm', d)) + repr(d.central_value) for d in ds]
        d = pr.convolve_distributions(ds)
        after = [repr(d.__dict__.get('y_norm', d)) + repr(d.central_value) for d in ds]
        c.expect(before == after, key, 'an input distribution was modified')
        dens = [sh[k][1:] for k in combo if k != 'd']
        if not dens:
            c.expect(isinstance(d, pr.DeltaDistribution) and d.central_value == cv, key, 'convolution of delta distributions is %r' % d)
            return
        x, y = ref_convolve(dens, sum(b - a for f, a, b in dens) / 6000.)
        compare(c, key, d, x, y, cv, s, cv, .004 if len(dens) > 1 else .003, 'convolution')
        if all(k in 'nNd' for k in combo):
            v = sum({'n': 1., 'N': 6.25}.get(k, 0.) for k in combo)
            c.expect(isinstance(d, pr.NormalDistribution) and abs(d.standard_deviation / s - math.sqrt(v)) < 1e-12 * v, key, 'normal distributions add to %r' % d)
    elif what == 'sum':
        cvs = [cv + s * t for t in (0., 3.2, -1.7)][:len(combo)]
        ds = [shapes(ci, s)[k][0]() for ci, k in zip(cvs, combo)]
        d = pr.convolve_distributions(ds, central_values='sum')
        dens = [shapes(0, 1)[k][1:] for k in combo]
        x, y = ref_convolve(dens, sum(b - a for f, a, b in dens) / 6000.)
        compare(c, key, d, x, y, sum(cvs), s, sum(cvs), .004, 'sum')
    else:  # product
        cvs = [cv + s * t for t in (0., .7, -.4)][:len(combo)]
        x = np.linspace(-12, 12, 9001)
        y = np.ones_like(x)
        for t, k in zip((0., .7, -.4), combo):
            if k != 'd':
                y = y * shapes(0, 1)[k][1](x - t)
        ds = [pr.DeltaDistribution(ci) if k == 'd' else shapes(ci, s)[k][0]() for ci, k in zip(cvs, combo)]
        if y.max() < 1e-5:
            return
        d = pr.combine_distributions(ds)
        nd = combo.count('d')
        if nd:
            c.expect(isinstance(d, pr.DeltaDistribution) and d.central_value == cvs[combo.index('d')], key, 'combination with a delta distribution is %r' % d)
            return
        y = y / np.trapz(y, x=x)
        central = float(d.central_value)
        compare(c, key, d, x, y, cv, s, central, .015, 'combination')
        if len(combo) > 1:
            c.expect(np.interp((central - cv) / s + np.linspace(-.02, .02, 21), x, y).max() > y.max() * .985, key, 'central value %r is not the mode' % central)
        if all(k in 'nN' for k in combo):
            w = [{'n': 1., 'N': 1 / 6.25}[k] for k in combo]
            m = sum(a * b for a, b in zip(w, cvs)) / sum(w)
            c.expect(abs(central - m) < 1e-9 * (abs(m) + s) and abs(d.standard_deviation / s - sum(w)**-.5) < 1e-10, key, 'weighted average %r' % d)


COVS = {'a': np.array([[.5, .2], [.2, .8]]), 'b': np.array([[2., -.9], [-.9, 1.]]), 'c': np.diag([.3, .3])}


def num2(c, sc, off=(0., 0.)):
    xi = [np.linspace(-6, 6, 121), np.linspace(-5, 7, 121)]
    X, Y = np.meshgrid(*xi, indexing='ij')
    y = np.exp(-(X**2 + .6 * X * Y + (Y - .3)**2) / 2) + .5 * np.exp(-((X - 1)**2 + (Y + 1)**2))
    xi2 = [c[0] + sc[0] * (xi[0] + off[0]), c[1] + sc[1] * (xi[1] + off[1])]
    y = y / y.sum()
    m = np.array([(X * y).sum(), (Y * y).sum()])
    cov = np.array([[(X * X * y).sum(), (X * Y * y).sum()], [(X * Y * y).sum(), (Y * Y * y).sum()]]) - np.outer(m, m)
    return xi2, y, m + off, cov


def moments(d, c, sc):
    X = np.meshgrid(*[(np.asarray(x) - ci) / s for x, ci, s in zip(d.xi, c, sc)], indexing='ij')
    y = d.y_norm / d.y_norm.sum()
    m = np.array([(x * y).sum() for x in X])
    cov = np.array([[((a - ma) * (b - mb) * y).sum() for b, mb in zip(X, m)] for a, ma in zip(X, m)])
    return m, cov


def multi(c, item):
    what, combo, cv, sc = item
    c.state(); c.trace()
    key = 'mv-%s/%s/%r' % (what, ''.join(combo), (cv, sc))
    cv, sc = np.array(cv), np.array(sc)
    S = np.outer(sc, sc)
    if what in ('same', 'sum'):
        cvs = [cv + (0 if what == 'same' else i) * sc for i in range(len(combo))]
        ds, mean, cov = [], np.zeros(2), np.zeros((2, 2))
        for k, ci in zip(combo, cvs):
            if k == 'x':
                xi, y, m, v = num2(ci, sc)
                ds.append(pr.MultivariateNumericalDistribution(xi, y, central_value=ci))
                mean += m
                cov += v
            else:
                ds.append(pr.MultivariateNormalDistribution(ci, COVS[k] * S))
                cov += COVS[k]
        d = pr.convolve_distributions(ds, central_values=what)
        want_cv = cv if what == 'same' else np.sum(cvs, axis=0)
        c.expect(np.allclose((np.asarray(d.central_value) - want_cv) / sc, 0, atol=1e-8), key, 'central value %r instead of %r' % (d.central_value, want_cv))
        if isinstance(d, pr.MultivariateNormalDistribution):
            c.expect(np.allclose(np.asarray(d.covariance) / S, cov, rtol=1e-9, atol=1e-12), key, 'covariance %r instead of %r' % (d.covariance / S, cov))
            c.expect('x' not in combo, key, 'a numerical distribution was dropped')
        else:
            m, v = moments(d, want_cv, sc)
            c.expect(np.allclose(m, mean, atol=.08), key, 'mean deviates by %r instead of %r' % (m, mean))
            c.expect(np.allclose(v, cov, rtol=.03, atol=.03), key, 'covariance %r instead of %r' % (v, cov))
    else:
        cvs = [cv + sc * t for t in ((0, 0), (.5, -.3), (-.2, .6))][:len(combo)]
        ds = []
        for k, ci in zip(combo, cvs):
            if k == 'x':
                xi, y, m, v = num2(ci, sc)
                ds.append(pr.MultivariateNumericalDistribution(xi, y))
            else:
                ds.append(pr.MultivariateNormalDistribution(list(ci), COVS[k] * S))
        d = pr.combine_distributions(ds)
        # reference by product of log densities at points; compare differences
        pts = [cv + sc * np.array(p) for p in ((0, 0), (1, 0), (0, 1), (-1, .5), (.7, .7), (.3, -1.2), (1.5, -1.))]
        ref = []
        for p in pts:
            t = 0
            for k, ci, dd in zip(combo, cvs, ds):
                if k == 'x':
                    t += float(dd.logpdf(p))
                else:
                    z = (p - ci) / sc
                    t += -.5 * z @ np.linalg.inv(COVS[k]) @ z
            ref.append(t)
        got = [float(d.logpdf(p)) for p in pts]
        diff = (np.array(got) - got[0]) - (np.array(ref) - ref[0])
        c.expect(np.max(np.abs(diff)) < (1e-6 if 'x' not in combo else .03), key, 'log density of the combination deviates by %r' % diff)
        if 'x' not in combo:
            W = [np.linalg.inv(COVS[k]) for k in combo]
            V = np.linalg.inv(sum(W))
            m = V @ sum(w @ ci for w, ci in zip(W, [np.array(t) for t in ((0, 0), (.5, -.3), (-.2, .6))]))
            c.expect(np.allclose(np.asarray(d.covariance) / S, V, rtol=1e-7) and np.allclose((np.asarray(d.central_value) - cv) / sc, m, atol=1e-7), key,
                     'combination of normal distributions %r' % d)


def errors(c):
    n = pr.NormalDistribution
    mv = pr.MultivariateNormalDistribution([0., 0.], np.eye(2))
    cases = [('same-different-cv', AssertionError, lambda: pr.convolve_distributions([n(0, 1), n(1, 1)])),
             ('same-different-cv2', AssertionError, lambda: pr.convolve_distributions([n(0, 1), pr.UniformDistribution(1, 1)])),
             ('dimension', AssertionError, lambda: pr.convolve_distributions([n(0, 1), mv])),
             ('dimension-combine', AssertionError, lambda: pr.combine_distributions([n(0, 1), mv])),
             ('mode', ValueError, lambda: pr.convolve_distributions([n(0, 1), n(0, 1)], central_values='other')),
             ('mv-cv', AssertionError, lambda: pr.convolve_distributions([mv, pr.MultivariateNormalDistribution([0., 1.], np.eye(2))])),
             ('delta-delta', ValueError, lambda: pr.combine_distributions([pr.DeltaDistribution(0), pr.DeltaDistribution(1)])),
             ('disjoint', ValueError, lambda: pr.combine_distributions([pr.UniformDistribution(0, 1), pr.UniformDistribution(5, 1)]))]
    for k, ex, f in cases:
        c.state()
        try:
            r = f()
        except (ex, ValueError, AssertionError):
            c.trans()
        else:
            c.fail('reject/' + k, 'invalid combination accepted: %r' % r)


def run(c):
    c.assumptions = ['resolution: distribution functions agree within 0.4% (numerical grids of 1000/10000 points are part of the implementation)',
                     'discrete distributions are not convolved (not supported by the numerical representation)']
    items = []
    scales = [(0., 1.), (2.5, .3), (3e-9, 4e-10)] + ([(-1e4, 20.)] if c.thorough else [])
    K = 'nNuahHx'
    for cv, s in scales:
        for n in (1, 2, 3):
            for m in itertools.combinations_with_replacement(K + 'd', n):
                perms = set(itertools.permutations(m)) if n < 3 or c.thorough else {m, m[::-1], (m[1], m[2], m[0])}
                for p in sorted(perms):
                    items.append(('same', p, cv, s))
            for m in itertools.product(K, repeat=n):
                if n == 3 and not c.thorough and not (m[0] <= m[1] <= m[2]):
                    continue
                items.append(('sum', m, cv, s))
            for m in itertools.product(K + 'd', repeat=n):
                if m.count('d') > 1 or n == 3 and not c.thorough and not (m[0] <= m[1] <= m[2]):
                    continue
                items.append(('combine', m, cv, s))
    mc.parallel(c, uni, items)
    it2 = []
    for cv, sc in (((0., 0.), (1., 1.)), ((3e-9, 2.), (1e-9, .3))):
        for n in (1, 2, 3):
            for m in itertools.product('abc', repeat=n):
                for w in ('same', 'sum', 'combine'):
                    it2.append((w, m, cv, sc))
        for m in (('x',), ('a', 'x'), ('x', 'a'), ('b', 'x', 'c'), ('x', 'b', 'a'), ('c', 'x')):
            for w in ('same', 'sum', 'combine'):
                it2.append((w, m, cv, sc))
        it2.append(('combine', ('x', 'x'), cv, sc))
    mc.parallel(c, multi, it2)
    errors(c)
    c.sample(items[0]); c.sample(items[len(items) // 2]); c.sample(it2[-1])
