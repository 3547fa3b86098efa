"""C04: every univariate probability distribution is what its definition says:
density against an independent reference, normalisation, PDF/log-PDF/CDF/
quantile consistency, central value, support, errors (probability content),
limits, numerical representation.  Explored: every distribution class x a grid
of constructor arguments x a grid of evaluation points x nsigma x method."""
import re, math, itertools
import numpy as np, scipy.stats as st
import scipy.integrate as si
import mc, distgrid
from flavio.statistics import probability as pr


def CL(n):
    return math.erf(n / math.sqrt(2))


def gpos(a, loc, sc):
    g = st.gamma(a=a, loc=loc, scale=sc)
    c0 = g.cdf(0)
    return (lambda x: np.where(np.asarray(x) < 0, -np.inf, g.logpdf(x) - np.log1p(-c0)),
            lambda x: np.where(np.asarray(x) < 0, 0., (g.cdf(x) - c0) / (1 - c0)),
            lambda p: g.ppf(c0 + p * (1 - c0)), max(0., loc + (a - 1) * sc))


def gengamma(a, loc, sc, s):
    """density of gamma (+) Gauss, mirrored at loc, restricted to x>0"""
    l = loc / sc
    g = st.gamma(a=a, loc=l)
    t = np.linspace(l, g.ppf(1 - 1e-12), 4001)
    gt = g.pdf(t)
    def f(x):
        return np.trapz(gt * st.norm.pdf(x, t, s), x=t)
    def h(x):
        return f(x) + f(2 * l - x)
    xs = np.linspace(0, g.ppf(1 - 1e-10) + 6 * s, 1501)
    ys = np.array([h(x) for x in xs])
    n = np.trapz(ys, x=xs)
    return lambda x: np.interp(np.asarray(x) / sc, xs, ys / n / sc, left=0, right=0)


def counts(d):
    t, b, s = d.get('counts_total'), d.get('counts_background'), d.get('counts_signal')
    if t is None:
        t = b + s
    if b is None:
        b = t - s
    return t, b


class Ref(object):
    logpdf = cdf = ppf = pdf = None
    central = None
    mode = True     # central value is the mode


def reference(label):
    kind, args = re.match(r'(\w+)\((.*)\)$', label).groups()
    r = Ref()
    def num():
        return [float(x) for x in args.split(',')]
    def kw():
        return {k: float(v) for k, v in (x.split('=') for x in args.split(',') if '=' in x)}
    if kind == 'normal':
        c, s = num()
        d = st.norm(c, s)
        r.logpdf, r.cdf, r.ppf, r.central = d.logpdf, d.cdf, d.ppf, c
    elif kind == 'uniform':
        c, h = num()
        r.logpdf = lambda x: np.where((np.asarray(x) >= c - h) & (np.asarray(x) < c + h), -math.log(2 * h), -np.inf)
        r.central = c
    elif kind == 'delta':
        c, = num()
        r.logpdf = lambda x: np.where(np.asarray(x) == c, 0., -np.inf)
        r.central = c
    elif kind == 'halfnormal':
        c, s = num()
        sg = np.sign(s)
        d = st.halfnorm(scale=abs(s))
        r.logpdf = lambda x: d.logpdf(sg * (np.asarray(x) - c))
        r.cdf = lambda x: d.cdf(x - c) if sg > 0 else d.sf(c - x)
        r.ppf = lambda p: c + d.ppf(p) if sg > 0 else c - d.ppf(1 - p)
        r.central = c
    elif kind == 'gausslimit':
        l, cl = num()
        s = l / st.norm.ppf(.5 + cl / 2)
        d = st.halfnorm(scale=s)
        r.logpdf, r.cdf, r.ppf, r.central = d.logpdf, d.cdf, d.ppf, 0.
    elif kind == 'asym':
        c, rr, l = num()
        def lp(x):
            x = np.asarray(x)
            s = np.where(x < c, l, rr)
            return math.log(2 / (math.sqrt(2 * math.pi) * (rr + l))) - (x - c)**2 / 2 / s**2
        r.logpdf, r.central = lp, c
    elif kind == 'lognormal':
        c, f = num()
        sg = np.sign(c)
        d = st.lognorm(s=math.log(f), scale=abs(c))
        r.logpdf = lambda x: d.logpdf(sg * np.asarray(x))
        r.cdf = lambda x: d.cdf(x) if sg > 0 else d.sf(-x)
        r.ppf = lambda p: d.ppf(p) if sg > 0 else -d.ppf(1 - p)
        r.central, r.mode = c, False
    elif kind == 'discrete':
        lo, hi, cv = args.split(',')
        lo, hi = int(lo), int(hi)
        n = hi - lo + 1
        r.logpdf = lambda x: np.where(np.isin(np.asarray(x), np.arange(lo, hi + 1)), -math.log(n), -np.inf)
        r.central = int((lo + hi) / 2) if cv == 'None' else int(cv)
    elif kind == 'gamma':
        a, loc, sc = num()
        d = st.gamma(a=a, loc=loc, scale=sc)
        r.logpdf, r.cdf, r.ppf, r.central = d.logpdf, d.cdf, d.ppf, loc + (a - 1) * sc
    elif kind == 'gammapos':
        r.logpdf, r.cdf, r.ppf, r.central = gpos(*num())
    elif kind == 'gammacount':
        sf = float(args.split(',')[0])
        t, b = counts(kw())
        r.logpdf, r.cdf, r.ppf, r.central = gpos(t + 1, -b * sf, sf)
    elif kind == 'gammalimit':
        lim, cl = [float(x) for x in args.split(',')[:2]]
        t, b = counts(kw())
        sf = lim / float(gpos(t + 1, -b, 1.)[2](cl))
        r.logpdf, r.cdf, r.ppf, r.central = gpos(t + 1, -b * sf, sf)
    elif kind in ('ggcount', 'gglimit', 'ggpos'):
        if kind == 'ggpos':
            a, loc, sc, s = 3., -1., 2., .5
        elif args == 'tinystd':
            a, loc, sc, s = 6., -2., None, 0.
        else:
            k = kw()
            t, b = counts(k)
            a, loc, s = t + 1, -b, k['std']
            sc = 2. if kind == 'ggcount' else None
            if sc:
                loc *= sc
        def make(sc, loc):
            if s == 0:
                lp = gpos(a, loc, sc)[0]
                return lambda x: np.exp(lp(x))
            return gengamma(a, loc, sc, s)
        if sc is None:
            f1 = make(1., loc)
            xs = np.linspace(0, 80, 8001)
            cum = si.cumulative_trapezoid(f1(xs), xs, initial=0)
            sc = 5. / np.interp(.9, cum / cum[-1], xs)
            loc *= sc
        r.pdf = make(sc, loc)
        r.scale = sc
    elif label == 'numerical(bump)':
        r.central = .7
    elif label == 'numerical(bump0)':
        r.central = 0.
    return r


def close(a, b, rel=1e-8, ab=0.):
    a, b = float(a), float(b)
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or a != a or b != b:
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def check(c, item):
    label, make = item
    c.state(); c.trace()
    d = make()
    r = reference(label)
    kind = label.split('(')[0]
    K = lambda what: '%s/%s' % (label, what)
    lo, hi = float(d.support[0]), float(d.support[1])
    cv = float(d.central_value)
    w = hi - lo
    c.expect(lo <= cv <= hi, K('support'), 'central value %r outside support %r' % (cv, d.support))
    c.expect(float(d.get_central()) == cv, K('central'), 'get_central() differs from central_value')
    if r.central is not None:
        c.expect(close(cv, r.central, 1e-9, 1e-12 * (w or 1)), K('central'), 'central value %r, expected %r' % (cv, r.central))
    pts = distgrid.probe_points(d)
    if kind == 'discrete':
        pts = [float(i) for i in range(int(lo) - 2, int(hi) + 3)] + [lo + .5]
    # density against the definition
    lps = []
    for x in pts:
        with np.errstate(all='ignore'):
            lp = float(d.logpdf(x))
        lps.append(lp)
        if r.logpdf is not None:
            want = float(r.logpdf(x))
            c.expect(close(lp, want, 1e-7, 1e-9), K('logpdf'), 'logpdf(%r) = %r, definition gives %r' % (x, lp, want), x=x)
        if hasattr(d, 'pdf'):
            p = float(d.pdf(x))
            c.expect(close(p, math.exp(lp) if lp > -700 else 0., 1e-9, 1e-300), K('pdf'), 'pdf(%r) = %r but exp(logpdf) = %r' % (x, p, math.exp(lp)), x=x)
        dl = float(d.delta_logpdf(x))
        want = lp - float(d.logpdf(d.central_value))
        c.expect(close(dl, want, 1e-9, 1e-9), K('delta_logpdf'), 'delta_logpdf(%r) = %r instead of %r' % (x, dl, want), x=x)
    with np.errstate(all='ignore'):
        arr = np.asarray(d.logpdf(np.array(pts)))
        arr2 = np.asarray(d.logpdf(np.array(pts * 2).reshape(2, -1)))
    c.expect(arr.shape == (len(pts),) and all(close(a, b, 1e-12) for a, b in zip(arr, lps)), K('vector'), 'logpdf of an array differs from the values: %r %r' % (arr, lps))
    c.expect(arr2.shape == (2, len(pts)) and np.array_equal(arr2[1], arr), K('vector'), 'logpdf of a 2D array has wrong shape or values')
    if kind == 'delta':
        c.expect(d.error_left == 0 == d.error_right, K('error'), 'delta distribution has errors')
        return
    if kind == 'discrete':
        s = sum(math.exp(float(d.logpdf(i))) for i in range(int(lo), int(hi) + 1))
        c.expect(close(s, 1), K('norm'), 'probabilities add up to %r' % s)
        return
    # normalisation; the support covers the distribution
    if isinstance(d, pr.NumericalDistribution):
        xs = np.unique(np.concatenate([np.asarray(d.x, float), np.linspace(lo, hi, 4001)]))
        step = float(np.max(d.y_norm) * np.max(np.diff(np.asarray(d.x, float))))
        tol = max(2e-3, step)
    else:
        xs = np.linspace(lo, hi, 40001)
        if kind == 'lognormal':
            xs = np.sign(cv) * np.exp(np.linspace(math.log(abs(cv)) - 6.2 * d.log_standard_deviation, math.log(abs(cv)) + 6 * d.log_standard_deviation, 20001))
            xs = np.sort(xs)
        tol = 1e-3
    with np.errstate(all='ignore'):
        ys = np.exp(d.logpdf(xs))
    ys[~np.isfinite(ys)] = 0
    tot = np.trapz(ys, x=xs)
    c.expect(abs(tot - 1) < 2e-4 if not isinstance(d, pr.NumericalDistribution) else abs(tot - 1) < 1e-9 + 2e-4, K('norm'), 'density integrates to %r over the support' % tot)
    if r.mode and kind not in ('lognormal', 'kde', 'gkde') and label not in ('numerical(bump)', 'numerical(bump0)'):
        m = xs[ys.argmax()]
        top = float(np.exp(d.logpdf(cv)))
        c.expect(top >= ys.max() * (1 - 2e-3) or kind == 'uniform', K('mode'), 'central value %r is not the mode (%r)' % (cv, m))
    if r.pdf is not None:
        want = np.asarray(r.pdf(xs))
        err = np.max(abs(ys - want)) / want.max()
        c.expect(err < 0.02, K('definition'), 'density differs from the definition by up to %.3g of its maximum' % err)
    # CDF and quantiles
    cum = np.concatenate([[0], np.cumsum((ys[1:] + ys[:-1]) / 2 * np.diff(xs))])
    if hasattr(d, 'cdf'):
        for x in pts:
            v = float(d.cdf(x))
            want = float(np.interp(x, xs, cum, left=0., right=1.))
            if r.cdf is not None:
                c.expect(close(v, float(r.cdf(x)), 1e-7, 1e-9), K('cdf'), 'cdf(%r) = %r, definition gives %r' % (x, v, float(r.cdf(x))), x=x)
            c.expect(abs(v - want) <= tol, K('cdf'), 'cdf(%r) = %r but the density integrates to %r' % (x, v, want), x=x)
        va = np.asarray(d.cdf(np.sort(pts)))
        c.expect(np.all(np.diff(va) >= -1e-12) and va.shape == (len(pts),), K('cdf'), 'CDF not monotonic: %r' % va)
        for p in (0., 1e-3, .05, .16, .5, .68, .84, .95, .999):
            q = float(d.ppf(p))
            if p == 0:
                c.expect(not float(d.cdf(q)) > 1e-9, K('ppf'), 'ppf(0) = %r has cdf %r' % (q, float(d.cdf(q))))
                continue
            if r.ppf is not None:
                c.expect(close(q, float(r.ppf(p)), 1e-6, 1e-9 * w), K('ppf'), 'ppf(%r) = %r, definition gives %r' % (p, q, float(r.ppf(p))), p=p)
            c.expect(abs(float(d.cdf(q)) - p) < 1e-7, K('ppf'), 'cdf(ppf(%r)) = %r' % (p, float(d.cdf(q))), p=p)
    # errors
    prev = (0., 0.)
    methods = ['central', 'hpd', 'limit'] if isinstance(d, pr.NumericalDistribution) else [None]
    for m in methods:
        prev = (-np.inf, -np.inf)
        for n in (1, 1.5, 2, 3):
            kw = {} if m is None else {'method': m}
            try:
                l, rgt = float(d.get_error_left(nsigma=n, **kw)), float(d.get_error_right(nsigma=n, **kw))
            except ValueError:
                if kind == 'gamma' and n == 3:
                    continue
                raise
            k = K('error-%s-%g' % (m, n))
            inside = float(np.interp(cv + rgt, xs, cum, left=0, right=1) - np.interp(cv - l, xs, cum, left=0, right=1))
            cl = CL(n)
            if n == 1 and m in (None, 'central'):
                c.expect(close(l, d.error_left, 1e-12) and close(rgt, d.error_right, 1e-12), k, 'error_left/right differ from get_error_*(1)')
            if m is None:
                c.expect(l >= 0 and rgt >= 0, k, 'negative error: %r %r' % (l, rgt))
                c.expect(abs(inside - cl) < 2e-3 or kind == 'asym', k, 'the %g sigma interval contains %.5f of the probability instead of %.5f' % (n, inside, cl))
                if kind == 'asym':
                    _, rr, ll = [float(x) for x in label[5:-1].split(',')]
                    c.expect(close(l, n * ll) and close(rgt, n * rr), k, 'errors %r %r' % (l, rgt))
                if kind == 'lognormal':
                    f = float(label[:-1].split(',')[1])
                    e = sorted([cv * f**n, cv / f**n])
                    c.expect(close(cv - l, e[0], 1e-6) and close(cv + rgt, e[1], 1e-6), k, 'interval [%r, %r] instead of %r' % (cv - l, cv + rgt, e))
                if kind in ('gamma', 'gammapos', 'gammacount', 'gammalimit') and cv - l > 1e-6 * w + max(lo, 0 if kind != 'gamma' else lo):
                    a, b = float(d.logpdf(cv - l)), float(d.logpdf(cv + rgt))
                    c.expect(abs(a - b) < 1e-4, k, 'densities at the interval ends differ: %r %r' % (a, b))
                c.expect(l >= prev[0] and rgt >= prev[1], k, 'interval shrinks with nsigma')
                prev = (l, rgt)
            elif m == 'central':
                cc = float(d.cdf(cv))
                c.expect(abs(float(d.cdf(cv + rgt)) - (cc + (1 - cc) * cl)) < 1e-6 and abs(float(d.cdf(cv - l)) - cc * (1 - cl)) < 1e-6, k,
                         'central interval [%r, %r] has the wrong content' % (cv - l, cv + rgt))
            elif m == 'limit':
                c.expect(abs(float(d.cdf(cv + rgt)) - cl) < 1e-6 and abs(float(d.cdf(cv - l)) - (1 - cl)) < 1e-6, k,
                         'one-sided limits %r %r have the wrong content' % (cv - l, cv + rgt))
            elif m == 'hpd':
                if l == l and rgt == rgt:
                    got = float(d.cdf(cv + rgt) - d.cdf(cv - l))
                    a, b = float(d.pdf(cv - l)), float(d.pdf(cv + rgt))
                    c.expect(abs(got - cl) < 1e-6 + (tol if a == b else 0), k, 'HPD interval contains %r' % got)
                    c.expect(abs(a - b) <= 1e-3 * ys.max(), k, 'HPD interval has densities %r, %r at its ends' % (a, b))
    if not isinstance(d, pr.NumericalDistribution):
        nd = pr.NumericalDistribution.from_pd(d, nsteps=2000)
        c.expect(float(nd.central_value) == cv, K('from_pd'), 'central value changed to %r' % nd.central_value)
        with np.errstate(all='ignore'):
            a, b = np.exp(nd.logpdf(xs[5:-5:40])), np.exp(d.logpdf(xs[5:-5:40]))
        if (kind != 'lognormal' or float(label[:-1].split(',')[1]) < 2) and not label.startswith('gamma(1.5'):
            c.expect(np.max(abs(a - b)) < 5e-3 * ys.max(), K('from_pd'), 'numerical representation differs from the distribution by %r' % (np.max(abs(a - b)) / ys.max()))
    if hasattr(d, 'limit'):
        c.expect(abs(float(d.cdf(d.limit)) - d.confidence_level) < 2e-3, K('limit'), 'cdf(limit) = %r' % float(d.cdf(d.limit)))
    # KDE: data smoothed by the kernel
    if isinstance(d, pr.KernelDensityEstimate):
        x = np.asarray(d.data, float)
        mean = np.trapz(xs * ys, x=xs)
        var = np.trapz((xs - mean)**2 * ys, x=xs)
        kx = np.linspace(*[float(t) for t in d.kernel.support], 4001)
        with np.errstate(all='ignore'):
            ky = np.exp(d.kernel.logpdf(kx))
        kvar = np.trapz(kx**2 * ky, x=kx)
        binw = (x.max() - x.min()) / d.n_bins
        c.expect(abs(mean - x.mean()) < .05 * x.std() + binw / 2, K('kde'), 'mean %r instead of %r' % (mean, x.mean()))
        c.expect(abs(var - x.var() - kvar) < .25 * (x.var() + kvar) + binw**2, K('kde'), 'variance %r instead of %r' % (var, x.var() + kvar))


def kde(c):
    # smooth data: the estimate is the convolution of the density of the data and the kernel
    n = 4000
    data = 2. + .5 * st.norm.ppf((np.arange(n) + .5) / n)
    x = np.linspace(.5, 3.5, 61)
    for h, nb in ((.2, None), (.4, 200), (.1, 500), (None, None)):
        d = pr.GaussianKDE(data, bandwidth=h, n_bins=nb)
        hh = h if h is not None else n**-.2 * data.std()
        want = st.norm.pdf(x, 2., math.hypot(.5, hh))
        c.state()
        err = np.max(abs(d.pdf(x) - want)) / want.max()
        c.expect(err < .02, 'kde/%s/%s' % (h, nb), 'kernel density estimate differs from the smoothed density by %.3g' % err)
        d2 = pr.KernelDensityEstimate(data, pr.NormalDistribution(0, hh), n_bins=nb)
        c.expect(np.allclose(d2.pdf(x), d.pdf(x), rtol=1e-9), 'kde-kernel/%s/%s' % (h, nb), 'GaussianKDE differs from the estimate with a Gaussian kernel')


def rejects(c):
    bad = [('NormalDistribution', (0, 0)), ('NormalDistribution', (0, -1)), ('LogNormalDistribution', (0, 2)), ('LogNormalDistribution', (1, 1)),
           ('LogNormalDistribution', (1, .5)), ('AsymmetricNormalDistribution', (0, 0, 1)), ('AsymmetricNormalDistribution', (0, 1, -1)),
           ('HalfNormalDistribution', (1, 0)), ('GaussianUpperLimit', (-1, .9)), ('GaussianUpperLimit', (1, 1.1)), ('GaussianUpperLimit', (0, .9)),
           ('GammaDistribution', (2, 1, 1)), ('GammaDistributionPositive', (2, 1, 1)), ('DiscreteUniformDistribution', (0, 3, 4)),
           ('DiscreteUniformDistribution', (1, 3, -1)), ('NumericalDistribution', ([0, 1], [1, 1], 2))]
    for n, a in bad:
        c.state()
        try:
            getattr(pr, n)(*a)
        except ValueError:
            c.trans()
        else:
            c.fail('reject/%s%r' % (n, a), '%s%r accepted' % (n, a))
    for cls in ('GammaCountingProcess', 'GeneralGammaCountingProcess'):
        for k in ({}, dict(counts_total=1), dict(counts_total=3, counts_background=1, counts_signal=1), dict(counts_total=-1, counts_background=1),
                  dict(counts_total=1, counts_background=-1), dict(counts_total=2, counts_signal=1, scale_factor=0)):
            c.state()
            try:
                getattr(pr, cls)(**k)
            except ValueError:
                c.trans()
            else:
                c.fail('reject/%s%r' % (cls, k), '%s(%r) accepted' % (cls, k))


def run(c):
    c.assumptions = ['constructor-argument grid of lib/distgrid.py; evaluation points across and outside the support',
                     'numerical tolerance: 1e-7 against closed forms, 2% of the maximum for numerically convolved gamma densities']
    items = distgrid.univariate(pr, big=True)
    mc.parallel(c, check, items, chunk=4)
    rejects(c)
    kde(c)
    c.extra['distributions'] = len(items)
    c.sample(items[0][0]); c.sample(items[-1][0])
