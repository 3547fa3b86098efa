"""C17: binned observables against the unbinned ones.

For every observable with a bin as argument, every bin of a covering set (low
and high q2, photon pole, whole range, below/across/above the kinematic
limits, nested and adjacent bins) at several Wilson coefficient points: the
value in the bin is the (weighted) integral of the unbinned observable,
computed here with Gauss-Legendre quadrature; narrow bins have the unbinned
value as limit; partial rates add up to the total one."""
import itertools, math, warnings
import numpy as np
import mc
import flavio, semilep
from semilep import value

XS, WS = np.polynomial.legendre.leggauss(16)
RATES = ('BR', 'BR_L', 'BR_T')
# ratios of coefficients with other denominators than the rate: only the limit of narrow bins
OPT = ('P1', 'P2', 'P3', 'ATIm', 'P4p', 'P5p', 'P6p', 'P8p', 'Dmue_P4p', 'Dmue_P5p', 'Dmue_AFB')
POINTS = None


def bins(proc):
    """(bins for the integral, centres of narrow bins)"""
    r = semilep.region(proc)
    if r is None:            # B->llgamma
        return [(1.2, 2.5), (2.5, 6.), (14.5, 16.), (1.2, 6.)], [2., 5., 15.]
    lo, hi, tail = r
    if hi is None:           # inclusive
        if tail == 'tautau':
            return [(14.4, 16.), (16., 18.)], [15., 17.]
        return [(1., 2.5), (2.5, 6.), (1., 6.), (14.4, 16.), (16., 18.)], [2., 5., 15.]
    if tail in ('ee', 'mumu', 'll', 'tautau'):
        if tail == 'tautau':
            a = max(lo, 14.2)
            out = []
        else:
            a = 14.2
            out = [(0.1, 0.9), (1.1, 2.5), (2.5, 6.), (1.1, 6.)]
            if tail != 'll':
                out += [(lo, 0.5), (0., 0.9)] if tail == 'mumu' else []
        m = (a + hi) / 2
        out += [(a, m), (m, hi), (a, hi), (a, hi + 2.), (hi + .1, hi + 1.)]
        return out, ([] if tail == 'tautau' else [0.5, 1.9, 4.7]) + [a + .3 * (hi - a), a + .8 * (hi - a)]
    q = [lo + f * (hi - lo) for f in (0., .2, .55, .85, 1.)]
    out = [(q[0], q[1]), (q[1], q[2]), (q[2], q[3]), (q[3], q[4]), (q[0], q[2]), (q[0], q[4]), (q[2], hi + 2.), (0., q[1]), (hi + .1, hi + 1.)]
    if lo > 1e-4:
        out += [(0., lo * .9)]
    return out, [lo + f * (hi - lo) for f in (.12, .4, .9)]


def nodes(proc, a, b):
    """nodes and weights for the integral over (a, b), within the physical region"""
    r = semilep.region(proc)
    if r and r[1] is not None:
        lo = r[0]
        a, b = min(max(a, lo), r[1]), min(max(b, lo), r[1])
    if b <= a:
        return np.array([]), np.array([])
    t = (XS + 1) / 2
    w = WS / 2
    if a < .05 * b and a > 0:
        # pole or threshold at the lower end: two pieces, the lower one in powers
        m = math.sqrt(a * b) if a > 1e-3 else b * .05
        q1 = a + (m - a) * t**3
        w1 = w * (m - a) * 3 * t**2
        q2 = m + (b - m) * (3 * t**2 - 2 * t**3)
        w2 = w * (b - m) * 6 * t * (1 - t)
        return np.concatenate([q1, q2]), np.concatenate([w1, w2])
    return a + (b - a) * (3 * t**2 - 2 * t**3), w * (b - a) * 6 * t * (1 - t)


def weight(fam, proc):
    if fam in RATES or fam == 'dBR/dq2':
        return None
    if fam == 'Rmue':
        p = proc.replace('ll)', 'ee)').replace('lnu)', 'enu)')
    elif fam == 'Rtaumu':
        p = proc.replace('ll)', 'mumu)').replace('lnu)', 'munu)')
    else:
        p = proc
    return 'dBR/dq2' + p


def job(c, item):
    proc, pt = item
    W = POINTS[pt]
    fams = FAMS[proc]
    bl, centres = bins(proc)
    # quick: the asymmetries in three bins only (one across the kinematic limit)
    short = bl[:1] + [b for b in bl if b[0] in (1., 1.1)][-1:] + bl[-2:-1]
    if not c.thorough:
        centres = centres[-3::2]
    cache = {}
    def unb(n, q):
        k = (n, q)
        if k not in cache:
            cache[k] = value(n, W, q)
        return cache[k]
    tab = {}
    for b in bl:
        q, w = nodes(proc, *b)
        for name, fam in fams:
            if fam in OPT or '/BR' in fam[3:]:
                continue
            x = semilep.partner(fam, proc)
            if x is None:
                continue
            wn = weight(fam, proc)
            if wn is not None and (wn not in flavio.Observable.instances):
                continue
            if not c.thorough and wn is not None and b not in short:
                continue
            c.state()
            key = '%s/%s/%.4g-%.4g' % (name, pt, b[0], b[1])
            v = value(name, W, *b)
            tab[fam, b] = v
            if not len(q):
                c.expect(v == 0, key, '%s in the bin %r outside of the physical region is %r' % (name, b, v))
                continue
            u = np.array([unb(x, t) for t in q])
            if wn is None:
                ref = (u * w).sum() / (1 if fam in RATES else b[1] - b[0])
                scale = abs(ref)
            else:
                wt = np.array([unb(wn, t) for t in q])
                ref = (u * wt * w).sum() / (wt * w).sum()
                scale = max(np.abs(u).max() * .2, abs(ref))
            c.trace()
            c.expect(math.isfinite(v) and abs(v - ref) <= 4e-3 * scale + (0 if wn is None else 3e-6), key, '%s in the bin %r is %r, but integrating %s gives %r (%s)' % (name, b, v, x, ref, pt))
    # adjacent bins
    for b1, b2 in itertools.product(bl, repeat=2):
        b = (b1[0], b2[1])
        if b1[1] == b2[0] and b in bl:
            for name, fam in fams:
                if fam not in RATES and fam != 'dBR/dq2' or (fam, b) not in tab:
                    continue
                f = (lambda x: 1.) if fam in RATES else (lambda x: x[1] - x[0])
                l, r = f(b) * tab[fam, b], f(b1) * tab[fam, b1] + f(b2) * tab[fam, b2]
                c.expect(abs(l - r) <= 1e-3 * abs(l), 'add/%s/%s/%r/%r' % (name, pt, b1, b2), '%s: the bins %r and %r add up to %r, not to %r as in the bin %r' % (name, b1, b2, r, l, b))
    # limit of narrow bins
    for name, fam in fams:
        x = semilep.partner(fam, proc)
        if x is None:
            continue
        for q in centres:
            c.state()
            d = 1e-4 * q
            v = value(name, W, q - d, q + d)
            u = unb(x, q) * (2 * d if fam in RATES else 1.)
            s = max(abs(u), 1e-5 if fam not in RATES and fam != 'dBR/dq2' else 0)
            c.trace()
            c.expect(abs(v - u) <= 1e-3 * s, 'narrow/%s/%s/%.4g' % (name, pt, q), '%s in the bin %.5g +- %.1g is %r, but %s is %r (%s)' % (name, q, d, v, x, u, pt))
    # whole range
    r = semilep.region(proc)
    if r and r[1] is not None and r[2] in ('enu', 'munu', 'taunu', 'lnu', 'nunu'):
        for tot in ('BR', 'Rmue', 'Rtaumu', 'Rtaul', 'BR_L', 'BR_T'):
            for name, fam in fams:
                n = tot + proc
                o = flavio.Observable.instances.get(n)
                if fam != tot and not (tot == 'BR' and fam == 'dBR/dq2') or o is None or o.arguments:
                    continue
                lo, hi = r[0], r[1]
                c.state()
                t = value(n, W)
                for a, b in ((lo, hi), (0., hi + 1.)):
                    v = value(name, W, a, b) * ((b - a) if fam == 'dBR/dq2' else 1)
                    c.trace()
                    c.expect(abs(v - t) <= 5e-3 * abs(t), 'total/%s/%s/%.3g' % (name, pt, a), '%s in the whole range (%.4g, %.4g) is %r, but %s is %r (%s)' % (name, a, b, v, n, t, pt))
    for name, fam in fams:
        if fam == 'BR/BR':
            br = '<BR>' + proc.replace('(B->', '(B0->')
            tot = 'BR' + proc.replace('(B->', '(B0->')
            for b in bl:
                v = value(name, W, *b)
                ref = value(br, W, *b) / value(tot, W)
                c.state()
                c.expect(abs(v - ref) <= 1e-3 * abs(ref) if ref else v == 0, 'norm/%s/%s/%r' % (name, pt, b), '%s in %r is %r instead of %r' % (name, b, v, ref))


ANG = {'cl': (-1., 1.), 'cV': (-1., 1.), 'phi': (0., 2 * math.pi)}


def angular(c, item):
    proc, pt = item
    W = POINTS[pt]
    for v, (lo, hi) in ANG.items():
        n, u = '<BR>/<%s>%s' % (v, proc), 'dBR/d%s%s' % (v, proc)
        if n not in flavio.Observable.instances:
            continue
        cuts = [lo + f * (hi - lo) for f in (0., .13, .5, .8, 1.)]
        val = {}
        for a, b in itertools.combinations(cuts, 2):
            c.state()
            val[a, b] = value(n, W, a, b)
        if max(abs(x) for x in val.values()) == 0:
            continue
        for a, m, b in itertools.combinations(cuts, 3):
            c.expect(abs(val[a, m] + val[m, b] - val[a, b]) <= 1e-3 * abs(val[a, b]), 'angadd/%s/%s/%.3g-%.3g-%.3g' % (n, pt, a, m, b), '%s: bins %r + %r give %r, not %r' % (n, (a, m), (m, b), val[a, m] + val[m, b], val[a, b]))
        for a, b in zip(cuts, cuts[1:]):
            x = (a + b) / 2 + (b - a) / 2 * X6
            ref = (np.array([value(u, W, y) for y in x]) * W6).sum() * (b - a) / 2
            c.trace()
            c.expect(abs(ref - val[a, b]) <= 2e-3 * abs(ref), 'angint/%s/%s/%.3g-%.3g' % (n, pt, a, b), '%s in (%.3g, %.3g) is %r, but integrating %s gives %r (%s)' % (n, a, b, val[a, b], u, ref, pt))
        tot = value('BR' + proc, W)
        c.expect(abs(val[lo, hi] - tot) <= 3e-3 * tot, 'angtot/%s/%s' % (n, pt), '%s over the whole range is %r, but the branching ratio is %r' % (n, val[lo, hi], tot))


X6, W6 = np.polynomial.legendre.leggauss(6)
FAMS = {}


def dispatch(c, item):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        (angular if item[0] == 'ang' else job)(c, item[1])


def run(c):
    global POINTS
    POINTS = semilep.points()
    for n, fam, proc in semilep.binned():
        FAMS.setdefault(proc, []).append((n, fam))
    pts = ['SM', 'A', 'B'] if c.thorough else ['A']
    items = [('q2', (p, x)) for p in FAMS for x in pts]
    angp = sorted(set(n[len('<BR>/<cl>'):] for n, o in flavio.Observable.instances.items() if n.startswith('<BR>/<cl>')))
    items += [('ang', (p, x)) for p in angp for x in pts]
    cost = lambda it: -('K*' in it[1][0] or 'phi' in it[1][0] or 'Lambda' in it[1][0]) 
    items.sort(key=cost)
    missing = [n for n, fam, proc in semilep.binned() if semilep.partner(fam, proc) is None]
    c.extra.update(processes=len(FAMS), observables=sum(map(len, FAMS.values())), points=len(pts), without_unbinned=missing[:60])
    mc.parallel(c, dispatch, items, chunk=1)
    c.sample('<FL>(B0->K*mumu) in 13 bins x %d points against the rate-weighted integral of FL(B0->K*mumu)' % len(pts))
