"""Enumerated space of distribution instances (bounded parameter grids for
every kind of distribution the package offers)."""
import numpy as np
from collections import OrderedDict
from itertools import product


def univariate(pr, big=False):
    """yield (label, constructor thunk)"""
    out = []
    def add(label, f):
        out.append((label, f))
    cvs = [0., 1., -2.5, 3e-9] + ([1e5, -4e-7] if big else [])
    for c in cvs:
        sc = abs(c) or 1.
        for f in (0.1, 1., 3.) if big else (0.1, 2.):
            s = sc * f
            add('normal(%g,%g)' % (c, s), lambda c=c, s=s: pr.NormalDistribution(c, s))
            add('uniform(%g,%g)' % (c, s), lambda c=c, s=s: pr.UniformDistribution(c, s))
            add('halfnormal(%g,%g)' % (c, s), lambda c=c, s=s: pr.HalfNormalDistribution(c, s))
            add('halfnormal(%g,%g)' % (c, -s), lambda c=c, s=s: pr.HalfNormalDistribution(c, -s))
            for g in (0.5, 1., 4.):
                add('asym(%g,%g,%g)' % (c, s, s * g),
                    lambda c=c, s=s, g=g: pr.AsymmetricNormalDistribution(c, s, s * g))
        add('delta(%g)' % c, lambda c=c: pr.DeltaDistribution(c))
        if c:
            for fac in (1.05, 1.5, 3.):
                add('lognormal(%g,%g)' % (c, fac), lambda c=c, fac=fac: pr.LogNormalDistribution(c, fac))
    for lim, cl in product((1., 4e-9), (0.68, 0.9, 0.95)):
        add('gausslimit(%g,%g)' % (lim, cl), lambda lim=lim, cl=cl: pr.GaussianUpperLimit(lim, cl))
    discrete = [(1, 7, 2), (0, 9, 9), (-5, -1, None), (2, 2, None)]
    for lo, hi in product((-3, -1, 0, 2, 4), repeat=2):
        if lo <= hi:
            discrete += [(lo, hi, cv) for cv in (None,) + tuple(sorted({lo, hi, 0, lo + 1} & set(range(lo, hi + 1))))]
    for lo, hi, cv in OrderedDict.fromkeys(discrete):
        add('discrete(%s,%s,%s)' % (lo, hi, cv),
            lambda lo=lo, hi=hi, cv=cv: pr.DiscreteUniformDistribution(lo, hi, cv))
    for a, loc, sc in ((3., 0., 1.), (11., -2., .5), (1.5, -1e-9, 1e-9), (30., -20., 2.)):
        add('gamma(%g,%g,%g)' % (a, loc, sc), lambda a=a, loc=loc, sc=sc: pr.GammaDistribution(a, loc, sc))
    for a, loc, sc in ((3., 0., 1.), (11., -2., .5), (2., -5., 1.), (1., 0., 1e-9), (30., -20., 2.), (4., -3.5e-9, 1e-9)):
        add('gammapos(%g,%g,%g)' % (a, loc, sc),
            lambda a=a, loc=loc, sc=sc: pr.GammaDistributionPositive(a, loc, sc))
    counts = [dict(counts_total=5, counts_background=2), dict(counts_total=0, counts_background=0),
              dict(counts_total=3, counts_background=3.5), dict(counts_total=10, counts_signal=4.),
              dict(counts_background=1.7, counts_signal=3.3)]
    for k in counts:
        lab = ','.join('%s=%g' % i for i in sorted(k.items()))
        for sf in (1., 2e-9):
            add('gammacount(%g,%s)' % (sf, lab), lambda sf=sf, k=k: pr.GammaCountingProcess(scale_factor=sf, **k))
        for lim, cl in ((1., .9), (3e-9, .95)):
            add('gammalimit(%g,%g,%s)' % (lim, cl, lab),
                lambda lim=lim, cl=cl, k=k: pr.GammaUpperLimit(limit=lim, confidence_level=cl, **k))
        for std in ((0., .6) if not big else (0., 0.3, 1.2)):
            add('ggcount(%s,std=%g)' % (lab, std),
                lambda k=k, std=std: pr.GeneralGammaCountingProcess(scale_factor=2., background_std=std, **k))
            add('gglimit(%s,std=%g)' % (lab, std),
                lambda k=k, std=std: pr.GeneralGammaUpperLimit(limit=5., confidence_level=.9, background_std=std, **k))
    add('gglimit(tinystd)', lambda: pr.GeneralGammaUpperLimit(limit=5., confidence_level=.9, counts_total=5,
                                                             counts_background=2, background_std=0.01))
    add('ggpos(3,-1,2,.5)', lambda: pr.GeneralGammaDistributionPositive(a=3., loc=-1., scale=2.,
                                                                       gaussian_standard_deviation=.5))
    x = np.linspace(-2., 4., 61)
    for lab, xx, y, cv in (
            ('tri', x, np.maximum(0.01, 2 - abs(x - 1)), None),
            ('bump', x, np.exp(-(x - .5)**2), .7),
            ('bump0', x, np.exp(-(x - .5)**2), 0),
            ('uneven', np.array([0., .1, .5, 1., 1.7, 4.]), np.array([.1, .5, 2., 1.5, .8, .2]), None),
            ('list', [0., 1., 2., 3.], [1., 3., 2., 1.], None),
            ('scaled', np.linspace(1e-9, 9e-9, 41), np.exp(-((np.linspace(1, 9, 41) - 4) / 1.5)**2), None)):
        add('numerical(%s)' % lab, lambda xx=xx, y=y, cv=cv: pr.NumericalDistribution(xx, y, cv))
    data = np.array([0.1, .4, .5, .9, 1., 1.3, 1.4, 2.2, 2.5, 3.1] * 3) + np.repeat([0, .01, .02], 10)
    add('gkde(default)', lambda: pr.GaussianKDE(data))
    add('gkde(bw)', lambda: pr.GaussianKDE(data, bandwidth=.4, n_bins=20))
    add('kde(normal)', lambda: pr.KernelDensityEstimate(data, pr.NormalDistribution(0, .3), n_bins=15))
    add('kde(list)', lambda: pr.KernelDensityEstimate(list(map(float, data)), pr.UniformDistribution(0, .3)))
    add('kde(num)', lambda: pr.KernelDensityEstimate(
        data, pr.NumericalDistribution(np.linspace(-1, 1, 21), np.exp(-np.linspace(-1, 1, 21)**2 * 4))))
    return out


def multivariate(pr):
    out = []
    def add(label, f):
        out.append((label, f))
    cov2 = [[.04, .01], [.01, .09]]
    cov3 = [[1., .3, -.2], [.3, 2., .1], [-.2, .1, .5]]
    add('mvn(cov2)', lambda: pr.MultivariateNormalDistribution([1., 2.], cov2))
    add('mvn(arr3)', lambda: pr.MultivariateNormalDistribution(np.array([1., -2., 0.]), np.array(cov3)))
    add('mvn(upper)', lambda: pr.MultivariateNormalDistribution([1., -2., 0.], np.triu(cov3)))
    add('mvn(std)', lambda: pr.MultivariateNormalDistribution([1., 2.], standard_deviation=[.1, .2]))
    add('mvn(std,corr)', lambda: pr.MultivariateNormalDistribution([1., 2.], standard_deviation=[.1, .2],
                                                                    correlation=[[1., .5], [.5, 1.]]))
    add('mvn(std,corrupper)', lambda: pr.MultivariateNormalDistribution(
        [1., 2., 3.], standard_deviation=[.1, .2, 3.], correlation=[[1., .5, .2], [0., 1., .1], [0, 0, 1.]]))
    add('mvn(std,number)', lambda: pr.MultivariateNormalDistribution([1., 2., 3.], standard_deviation=[.1, .2, 3e-5],
                                                                     correlation=.3))
    add('mvn(scales)', lambda: pr.MultivariateNormalDistribution([1e-9, 2e3], [[1e-20, 3e-11], [3e-11, 4.]]))
    xi = [np.linspace(0, 3, 7), np.linspace(-1, 1, 5)]
    y = np.outer(np.exp(-(xi[0] - 1)**2), 1.5 - xi[1]**2) + .1 * np.outer(xi[0], xi[1] + 1)
    add('mvnum(2)', lambda: pr.MultivariateNumericalDistribution([a.copy() for a in xi], y.copy()))
    add('mvnum(lists)', lambda: pr.MultivariateNumericalDistribution([list(map(float, a)) for a in xi], y.tolist()))
    add('mvnum(cv)', lambda: pr.MultivariateNumericalDistribution(xi, y, central_value=[1.2, .1]))
    add('mvnum(cv0)', lambda: pr.MultivariateNumericalDistribution(xi, y, central_value=[0., 0.]))
    add('mvnum(bounds)', lambda: pr.MultivariateNumericalDistribution([[0., 3.], [-1., 1.]], y))
    x3 = [np.linspace(0, 2, 3), np.linspace(0, 1, 4), np.linspace(-2, 0, 3)]
    y3 = 1 + np.arange(36).reshape(3, 4, 3) * 17 % 23
    add('mvnum(3)', lambda: pr.MultivariateNumericalDistribution(x3, y3.astype(float)))
    return out


def probe_points(d):
    """points of the (univariate) distribution at which behaviour is compared"""
    lo, hi = float(d.support[0]), float(d.support[1])
    cv = float(d.central_value)
    w = hi - lo
    if w == 0:
        return [cv, cv + 1, cv - 1]
    return [lo + t * w for t in (-.1, 0.003, .1, .3, .47, .5, .61, .8, .95, 1.1)] + [cv]
