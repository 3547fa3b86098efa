"""C27: statistical and mathematical helper functions.

Complete grid of arguments (numbers of sigmas, degrees of freedom, chi2 values
from 1e-6 to the far tails), in interleaved orders (they are cached), against
closed forms: chi2 tails by finite sums, polylogarithm by series and functional
equations, integrals with known primitives."""
import itertools, math, cmath
import numpy as np
from scipy import special
import mc
import flavio
from flavio.statistics import functions as sf
from flavio.math import functions as mf
from flavio.math import integrate as mi


def chi2_sf(x, k):
    """survival function of chi2 with k degrees of freedom, finite sums"""
    if x <= 0:
        return 1.
    h = x / 2.
    if k % 2 == 0:
        lt = [-h + j * math.log(h) - math.lgamma(j + 1) for j in range(k // 2)]
        m = max(lt)
        return math.exp(m) * math.fsum(math.exp(t - m) for t in lt)
    s = math.erfc(math.sqrt(h))
    lt = [-h + (j - .5) * math.log(h) - math.lgamma(j + .5) for j in range(1, (k - 1) // 2 + 1)]
    if lt:
        m = max(lt)
        s += math.exp(m) * math.fsum(math.exp(t - m) for t in lt)
    return s


def two_sided(n):
    return math.erfc(n / math.sqrt(2))


def rel(a, b, tol):
    return abs(a - b) <= tol * max(abs(a), abs(b))


NS = [1e-3, .01, .1, .3, .5, .9, .99, 1., 1.01, 1.5, 2., 2.7, 3., 4., 5., 6., 7., 8., 8.3, 9., 10., 12., 15., 20., 30.]
DOF = [1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 20, 37, 50, 99, 100, 150]


def stats(c):
    for n in NS + ([i / 7. for i in range(1, 140)] if c.thorough else []):
        c.state(); c.trace()
        v = sf.confidence_level(n)
        c.expect(abs(v - math.erf(n / math.sqrt(2))) <= 1e-15 + 1e-13 * v, 'confidence_level/%r' % n, 'confidence_level(%r) = %r, should be %r' % (n, v, math.erf(n / math.sqrt(2))))
        for k in DOF:
            c.state(); c.trace()
            d = sf.delta_chi2(n, k)
            p = two_sided(n)
            # compare probabilities: in the bulk the CL, in the tail its complement
            if p > .5:
                ok = rel(1 - chi2_sf(d, k), 1 - p, 1e-8) if d > 1e-3 else True
            else:
                ok = rel(chi2_sf(d, k), p, 1e-8)
            c.expect(ok and d > 0, 'delta_chi2/%r/%d' % (n, k), 'delta_chi2(%r, %d) = %r has probability %r, should be %r' % (n, k, d, chi2_sf(d, k), p))
            b = sf.pull(d, k)
            c.expect(rel(b, n, 1e-7), 'pull/%r/%d' % (n, k), 'pull(delta_chi2(%r, %d)) = %r' % (n, k, b))
            if k > 1:
                c.expect(d > sf.delta_chi2(n, k - 1), 'monotonous/%r/%d' % (n, k), 'delta_chi2 does not increase with the degrees of freedom')
    xs = [1e-4, .01, .1, .5, 1., 2.3, 3.84, 5., 9., 11.8, 20., 37., 50., 70., 100., 200., 500., 1000.]
    for x in xs:
        for k in DOF:
            c.state(); c.trace()
            r = chi2_sf(x, k)
            v = sf.pvalue(x, k)
            c.expect(rel(v, r, 1e-9) or r < 1e-290, 'pvalue/%r/%d' % (x, k), 'pvalue(%r, %d) = %r, should be %r' % (x, k, v, r))
            q = sf.pull(x, k)
            if 1e-12 < 1 - r and r > 1e-250:
                p = two_sided(q)
                c.expect(rel(p, r, 1e-8) if r < .5 else rel(1 - p, 1 - r, 1e-7 + 1e-13 / (1 - r)), 'pull/%r/%d' % (x, k), 'pull(%r, %d) = %r has probability %r, should be %r' % (x, k, q, p, r))
    c.expect(sf.pull(0, 1) == 0 and sf.pull(0, 4) == 0 and sf.delta_chi2(0, 3) == 0 and sf.confidence_level(0) == 0 and sf.pvalue(0, 3) == 1, 'zero', 'values at zero')
    # any order of calls (cached functions)
    base = {(n, k): sf.delta_chi2(n, k) for n in NS for k in DOF}
    cl = {n: sf.confidence_level(n) for n in NS}
    for seq in itertools.permutations([1., 2., 3., 1], 4):
        for n in list(seq) + [x for i in range(12) for x in (NS[i], 1.)] + list(seq):
            c.state()
            c.expect(sf.confidence_level(n) == cl[float(n)] and sf.delta_chi2(n, 2) == base[float(n), 2], 'order/%r' % n, 'depends on earlier calls')


def normal(c):
    for mu in (-3., 0., 1e-9, 5e8):
        for s in (1e-12, .3, 1., 7e6):
            for t in (-30., -3., -1., 0., .5, 2., 8.):
                x = mu + t * s
                te = (x - mu) / s
                c.state(); c.trace()
                l = -te**2 / 2 - math.log(s) - .5 * math.log(2 * math.pi)
                for lab, v in (('scalar', mf.normal_logpdf(x, mu, s)), ('array', mf.normal_logpdf(np.array([x, mu]), mu, s)[0]), ('list', mf.normal_logpdf([x], mu, s)[0])):
                    c.expect(abs(v - l) <= 1e-10 * (1 + abs(l)), 'normal_logpdf/%r/%s' % ((x, mu, s), lab), 'normal_logpdf(%r, %r, %r) = %r, should be %r' % (x, mu, s, v, l))
                for lab, v in (('scalar', mf.normal_pdf(x, mu, s)), ('array', mf.normal_pdf(np.array([x, mu]), mu, s)[0]), ('list', mf.normal_pdf([x], mu, s)[0])):
                    c.expect(abs(v - math.exp(l)) <= 1e-9 * (1 + abs(l)) * math.exp(l) + 1e-300, 'normal_pdf/%r/%s' % ((x, mu, s), lab), 'normal_pdf(%r, %r, %r) = %r, should be %r' % (x, mu, s, v, math.exp(l)))


def li2(z):
    """dilogarithm by its series after mapping to |z|<=1/2-ish"""
    z = complex(z)
    if z == 0:
        return 0j
    if z == 1:
        return complex(math.pi**2 / 6)
    if abs(z) > 1:
        return -li2(1 / z) - math.pi**2 / 6 - cmath.log(-z)**2 / 2
    if z.real > .5:
        return -li2(1 - z) + math.pi**2 / 6 - cmath.log(z) * cmath.log(1 - z)
    # Bernoulli series in -log(1-z)
    u = -cmath.log(1 - z)
    s, t = 0j, u
    B = special.bernoulli(40)
    for n in range(0, 41):
        s += B[n] * t / math.factorial(n + 1) if n != 1 else -t / 4
        t *= u
    return s


def functions(c):
    for r in (1e-6, .01, .3, .7, .99, 1.3, 2., 10., 1e4):
        for k in range(1, 24 if not c.thorough else 96):
            z = r * cmath.exp(2j * math.pi * (k + .31) / (24 if not c.thorough else 96))
            c.state(); c.trace()
            v = complex(mf.li2(z))
            w = li2(z)
            c.expect(abs(v - w) <= 1e-11 * (1 + abs(w)), 'li2/%r' % z, 'li2(%r) = %r, should be %r' % (z, v, w))
    for x in (-1e3, -5., -1., -.2, 0., .3, .8, 1.):
        c.state()
        c.expect(abs(mf.li2(x) - li2(x).real) <= 1e-11 * (1 + abs(li2(x))), 'li2/%r' % x, 'li2(%r) = %r' % (x, mf.li2(x)))
    for s in (2, 3, 4, 5, 1.5, 8.):
        N = 2000
        ref = math.fsum(n**-s for n in range(1, N)) + N**(1 - s) / (s - 1) + .5 * N**-s + s * N**(-s - 1) / 12
        c.state(); c.trace()
        c.expect(rel(mf.zeta(s), ref, 1e-12), 'zeta/%r' % s, 'zeta(%r) = %r, should be %r' % (s, mf.zeta(s), ref))
    for x in (-5., -3., -1., -.1, .05, .5, 1., 3., 9.):
        ref = .5772156649015329 + math.log(abs(x)) + math.fsum(x**k / k / math.factorial(k) for k in range(1, 150))
        c.state(); c.trace()
        c.expect(rel(mf.ei(x), ref, 1e-9), 'ei/%r' % x, 'ei(%r) = %r, should be %r' % (x, mf.ei(x), ref))


PRIM = {'sin': (math.sin, lambda x: -math.cos(x)), 'exp': (math.exp, math.exp), 'cubic': (lambda x: x**3 - x + 2, lambda x: x**4 / 4 - x**2 / 2 + 2 * x),
        'tiny': (lambda x: 1e-20 * x**2, lambda x: 1e-20 * x**3 / 3), 'peak': (lambda x: 1 / (1 + x * x), math.atan), 'one': (lambda x: 1., lambda x: x)}


def integrals(c):
    for n, (f, F) in PRIM.items():
        for a, b in itertools.permutations((-1.5, -.2, .1, 1., 3.), 2):
            I = F(b) - F(a)
            scale = sum(abs(f(a + (b - a) * t)) for t in (.05, .35, .65, .95)) / 4 * abs(b - a)
            for lab, g, tol in (('nintegrate', mi.nintegrate, 5e-3), ('nintegrate_fast', mi.nintegrate_fast, 1e-1), ('nintegrate_complex', mi.nintegrate_complex, 5e-3)):
                if lab == 'nintegrate_fast' and a > b:
                    continue
                c.state(); c.trace()
                v = g(f, a, b)
                c.expect(abs(v - I) <= tol * scale, 'integral/%s/%s/%r' % (lab, n, (a, b)), '%s: %r, should be %r' % (lab, v, I))
                if lab == 'nintegrate_complex':
                    v = g(lambda x: f(x) * (1 - 2j), a, b)
                    c.expect(abs(v - I * (1 - 2j)) <= 3 * tol * scale, 'integral/%s/%s/%r/complex' % (lab, n, (a, b)), '%s: %r, should be %r' % (lab, v, I * (1 - 2j)))
            for e in (1e-3, 1e-9):
                v = mi.nintegrate(f, a, b, epsrel=e)
                c.expect(abs(v - I) <= max(e, 1e-13) * scale, 'integral/epsrel/%s/%r' % (n, (a, b)), 'accuracy %g requested: %r, should be %r' % (e, v, I))


def run(c):
    for f in (stats, normal, functions, integrals):
        with np.errstate(all='ignore'):
            f(c)
    c.sample('pull(delta_chi2(12., 50), 50) == 12.')
