"""C16: renormalisation group running.

Couplings, masses, decay constants and Wilson coefficients over a grid of
scales (incl. both sides of every threshold and the thresholds themselves) x
numbers of flavours x input values x threshold settings, compared with an own
integration of the renormalisation group equations; all sequences of calls (to
a depth) of the cached evolution, with the results modified in place and with
changing thresholds."""
import itertools, math
import numpy as np
import mc
import flavio
from flavio.physics.running import running as R

PI = math.pi
MZ = 91.1876
THR = [dict(mt=173.21, mb=4.18, mc=1.275), dict(mt=163., mb=4.8, mc=1.5), dict(mt=170., mb=4.3, mc=1.3)]


def cfg():
    return flavio.config['RGE thresholds']


class thresholds:
    def __init__(self, t):
        self.t = t

    def __enter__(self):
        self.old = dict(cfg())
        cfg().update(self.t)

    def __exit__(self, *a):
        cfg().update(self.old)


def nf_of(mu, t):
    return 3 + (mu >= t['mc']) + (mu >= t['mb']) + (mu >= t['mt'])


def scales(t):
    out = [0.8, 1., 1.2, 2., 3., 4., 4.5, 10., 40., MZ, 160., 200., 1000.]
    for m in t.values():
        out += [m, m * (1 + 1e-9), m * (1 - 1e-9), np.nextafter(m, 0)]
    return out


# -- QED ----------------------------------------------------------------------
Q2 = {3: (1, 2, 2), 4: (2, 2, 3), 5: (2, 3, 3), 6: (3, 3, 3)}


def alpha_e_ref(a0, mu, nf, t):
    inv = 1 / a0
    def step(inv, m0, m1, nf):
        u, d, e = Q2[nf]
        return inv - 2 / (3 * PI) * (3 * (u * 4 / 9. + d / 9.) + e) * math.log(m1 / m0)
    cur, m = 5, MZ
    while cur != nf:
        nxt = cur + (1 if nf > cur else -1)
        thr = t['mt'] if nxt == 6 else {4: t['mb'], 3: t['mc']}[nxt]
        inv = step(inv, m, thr, cur)
        cur, m = nxt, thr
    return 1 / step(inv, m, mu, cur)


def qed(c, item):
    t, a0 = item
    par = {'alpha_e': a0, 'alpha_s': 0.118}
    with thresholds(t):
        for mu in scales(t):
            c.state()
            nf0 = nf_of(mu, t)
            c.expect(R.get_nf(mu) == nf0, 'nf/%r' % mu, 'get_nf(%r) = %r, not %r (thresholds %r)' % (mu, R.get_nf(mu), nf0, t))
            for nf in (None, 3, 4, 5, 6):
                v = R.get_alpha_e(par, mu, nf_out=nf)
                r = alpha_e_ref(a0, mu, nf or nf0, t)
                c.expect(abs(v / r - 1) < 1e-9, 'alpha_e/%r/%s' % (mu, nf), 'alpha_e(%r, nf=%s) = %r instead of %r (alpha_e(MZ)=%r, %r)' % (mu, nf, v, r, a0, t))
                try:
                    al = R.get_alpha(par, mu, nf_out=nf)
                except ValueError:
                    continue
                c.expect(al['alpha_e'] == v and al['alpha_s'] == R.get_alpha_s(par, mu, nf_out=nf), 'alpha/%r/%s' % (mu, nf), 'get_alpha differs from get_alpha_e/get_alpha_s')


# -- QCD ------------------------------------------------------------------------
Z3 = 1.2020569031595942


def beta(a, nf):
    """d a / d ln mu^2, a = alpha_s/pi, three loops"""
    b0 = (11 - 2 * nf / 3.) / 4
    b1 = (102 - 38 * nf / 3.) / 16
    b2 = (2857 / 2. - 5033 * nf / 18. + 325 * nf**2 / 54.) / 64
    return -a**2 * (b0 + b1 * a + b2 * a**2)


def gamma_m(a, nf):
    g0 = 1.
    g1 = (202 / 3. - 20 * nf / 9.) / 16
    g2 = (1249 + (-2216 / 27. - 160 * Z3 / 3) * nf - 140 * nf**2 / 81.) / 64
    return -a * (g0 + g1 * a + g2 * a**2)


def rk4(f, y, x0, x1, n=200):
    h = (x1 - x0) / n
    x = x0
    y = np.array(y, dtype=complex if np.iscomplexobj(y) else float)
    for i in range(n):
        k1 = f(x, y)
        k2 = f(x + h / 2, y + h / 2 * k1)
        k3 = f(x + h / 2, y + h / 2 * k2)
        k4 = f(x + h, y + h * k3)
        y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        x += h
    return y


def run_qcd(als, m, mu0, mu1, nf):
    """alpha_s and a mass from mu0 to mu1 at fixed number of flavours"""
    f = lambda L, y: np.array([beta(y[0], nf), gamma_m(y[0], nf) * y[1]])
    y = rk4(f, [als / PI, m], math.log(mu0**2), math.log(mu1**2))
    return y[0] * PI, y[1]


MUS = {3: [1., 1.2, 2., 3.], 4: [1., 1.5, 2., 3., 4.2, 5.], 5: [3., 4.2, 5., 10., 40., 80., MZ, 160., 300.], 6: [100., 160., 200., 500., 2000.]}
GET = {'m_u': R.get_mu, 'm_d': R.get_md, 'm_s': R.get_ms, 'm_c': R.get_mc, 'm_b': R.get_mb}
INPUT = {'m_u': (3, 2.), 'm_d': (3, 2.), 'm_s': (3, 2.), 'm_c': (4, None), 'm_b': (5, None)}
NFS = {'m_u': (3, 4, 5), 'm_d': (3, 4, 5), 'm_s': (3, 4, 5), 'm_c': (3, 4, 5), 'm_b': (3, 4, 5, 6)}


def qcd(c, item):
    als, scale_m = item
    par = {'alpha_s': als, 'alpha_e': 1 / 127.9, 'm_u': 0.0022 * scale_m, 'm_d': 0.0047 * scale_m, 'm_s': 0.093 * scale_m,
           'm_c': 1.275 * (1 + (scale_m - 1) / 20), 'm_b': 4.18 * (1 + (scale_m - 1) / 30), 'm_t': 173.1 * (1 + (scale_m - 1) / 50)}
    par0 = dict(par)
    key = 'qcd/%r/' % (item,)
    t = dict(cfg())
    c.expect(abs(R.get_alpha_s(par, MZ) / als - 1) < 1e-12, key + 'input', 'alpha_s(MZ) = %r is not the parameter %r' % (R.get_alpha_s(par, MZ), als))
    close = lambda a, b, tol: abs(a / b - 1) < tol
    for nf, mus in MUS.items():
        for mu0, mu1 in itertools.permutations(mus, 2):
            c.state()
            a0, a1 = R.get_alpha_s(par, mu0, nf_out=nf), R.get_alpha_s(par, mu1, nf_out=nf)
            r = run_qcd(a0, 1., mu0, mu1, nf)[0]
            c.expect(close(a1, r, 1e-4 if min(mu0, mu1) > 1.1 else 1e-3), key + 'as/%d/%r/%r' % (nf, mu0, mu1), 'alpha_s(%r, nf=%d) = %r, but running from %r gives %r' % (mu1, nf, a1, mu0, r))
        for mu in mus:
            if nf_of(mu, t) == nf:
                c.expect(R.get_alpha_s(par, mu) == R.get_alpha_s(par, mu, nf_out=nf), key + 'nfdef/%r' % mu, 'alpha_s(%r) does not use the %d flavours active at this scale' % (mu, nf))
                for q, g in GET.items():
                    if nf in NFS[q]:
                        c.expect(g(par, mu) == g(par, mu, nf_out=nf), key + 'nfdefm/%s/%r' % (q, mu), '%s(%r) does not use the %d flavours active at this scale' % (q, mu, nf))
    for thr, nf in ((4.8, 5), (1.3, 4)):
        c.expect(close(R.get_alpha_s(par, thr, nf_out=nf), R.get_alpha_s(par, thr, nf_out=nf - 1), .02), key + 'cont/%d' % nf, 'alpha_s jumps at the %d flavour threshold' % nf)
    # masses
    for q, g in GET.items():
        nf0, mu0 = INPUT[q]
        mu0 = mu0 or par[q]
        c.expect(close(g(par, mu0, nf_out=nf0), par[q], 1e-9), key + 'min/' + q, '%s(%r, nf=%d) = %r is not the parameter %r' % (q, mu0, nf0, g(par, mu0, nf_out=nf0), par[q]))
        c.expect(R.get_mq(q[2], par, 3.1, nf_out=4) == g(par, 3.1, nf_out=4), key + 'mq/' + q, 'get_mq differs from the individual function')
        for nf in NFS[q]:
            for a, b in itertools.permutations(MUS[nf], 2):
                c.state()
                ma, mb = g(par, a, nf_out=nf), g(par, b, nf_out=nf)
                # skip the input scale of m_c (returned for every number of flavours)
                if q == 'm_c' and par[q] in (a, b):
                    continue
                r = run_qcd(R.get_alpha_s(par, a, nf_out=nf), ma, a, b, nf)[1]
                c.expect(close(mb, r, 2e-3 if min(a, b) > 1.9 else 1e-2), key + 'run/%s/%d/%r/%r' % (q, nf, a, b), '%s(%r, nf=%d) = %r, but running from %r gives %r' % (q, b, nf, mb, a, r))
        for thr, nf in ((4.8, 5), (1.3, 4)):
            if nf in NFS[q] and not (q == 'm_c' and thr == 1.3):
                c.expect(close(g(par, thr, nf_out=nf), g(par, thr, nf_out=nf - 1), .03), key + 'contm/%s/%d' % (q, nf), '%s jumps at the %d flavour threshold: %r, %r' % (q, nf, g(par, thr, nf_out=nf - 1), g(par, thr, nf_out=nf)))
    # pole masses (two loops; light quarks massless)
    for q, f, nf in (('m_b', R.get_mb_pole, 5), ('m_c', R.get_mc_pole, 4)):
        m = par[q]
        a = R.get_alpha_s(par, m, nf_out=nf) / PI
        if nf_of(m, t) == nf:
            for nl, fac in ((1, 1 + 4 / 3. * a), (2, 1 + 4 / 3. * a + (13.4434 - 1.0414 * (nf - 1)) * a**2),
                            (3, 1 + 4 / 3. * a + (13.4434 - 1.0414 * (nf - 1)) * a**2 + (190.595 - 26.655 * (nf - 1) + .6527 * (nf - 1)**2) * a**3)):
                v = f(par, nl=nl)
                c.expect(close(v, m * fac, 2e-3 * nl), key + 'pole/%s/%d' % (q, nl), '%d-loop pole mass %r instead of %r' % (nl, v, m * fac))
            c.expect(f(par) == f(par, nl=2), key + 'poledef/' + q, 'the default pole mass is not the two-loop one')
    # short-distance masses lie between the MSbar and the pole mass and invert
    from flavio.physics.running import masses
    for q, f, nf, N in (('m_b', R.get_mb_KS, 5, 4),):
        m = par[q]
        als_m = R.get_alpha_s(par, m, nf_out=nf)
        prev = None
        for mu in (0.6, 0.8, 1., 1.2):
            v = f(par, mu)
            back = masses.mKS2mMS(v, N, als_m, mu, 3)
            c.expect(close(back, m, .02), key + 'ks/%r' % mu, 'kinetic mass %r at %r converts back to %r instead of %r' % (v, mu, back, m))
            c.expect(m < v < R.get_mb_pole(par, nl=3), key + 'ksrange/%r' % mu, 'kinetic mass %r not between MSbar and pole mass' % v)
            c.expect(prev is None or v < prev, key + 'ksmono/%r' % mu, 'kinetic mass does not decrease with the cutoff')
            prev = v
    v = R.get_mb_1S(par)
    c.expect(m < v < R.get_mb_pole(par, nl=3), key + '1S', '1S mass %r not between MSbar and pole mass' % v)
    # top
    for a, b in itertools.permutations((180., 200., 350., 1000.), 2):
        ma, mb = R.get_mt(par, a), R.get_mt(par, b)
        r = run_qcd(R.get_alpha_s(par, a, nf_out=6), ma, a, b, 6)[1]
        c.expect(close(mb, r, 5e-3), key + 'mt/%r/%r' % (a, b), 'm_t(%r) = %r, but running from %r gives %r' % (b, mb, a, r))
    mt = R.get_mt_mt(par)
    c.expect(close(R.get_mt(par, mt), mt, 2e-3), key + 'mtmt', 'm_t(m_t) = %r, but m_t at this scale is %r' % (mt, R.get_mt(par, mt)))
    a = R.get_alpha_s(par, mt, nf_out=5) / PI
    c.expect(close(par['m_t'], mt * (1 + 4 / 3. * a + (13.4434 - 1.0414 * 5) * a**2 + (190.595 - 26.655 * 5 + .6527 * 25) * a**3), 2e-3), key + 'mtpole', 'pole mass and m_t(m_t)=%r do not agree' % mt)
    c.expect(par == par0, key + 'par', 'the parameter dictionary was modified')


MESONS = ['rho0', 'rho+', 'K*0', 'K*+', 'omega', 'phi']


def fperp(c, item):
    t, als = item
    par = {'alpha_s': als}
    for i, m in enumerate(MESONS):
        par['f_perp_' + m] = .1 + .02 * i
    with thresholds(t):
        edge = {4: t['mc'], 5: t['mb'], 6: t['mt']}
        for i, m in enumerate(MESONS):
            for mu in (1., 1.1, 1.27, 1.7, 2., 2.5, 4., 4.3, 5., 80., 160., 180., 500., t['mc'], t['mb'], t['mt']):
                for nf_out in (None, 3, 4, 5, 6):
                    n0 = 3 + (mu > t['mc']) + (mu > t['mb']) + (mu > t['mt'])
                    if nf_out is not None and abs(nf_out - n0) > (mu in t.values()):
                        # only the thresholds themselves and scales slightly off: the number of flavours given is at most one off
                        if not (nf_out == n0 - 1):
                            continue
                    n = nf_out or n0
                    c.state()
                    try:
                        a = lambda s, f: R.get_alpha_s(par, s, nf_out=f)
                        ref, s = par['f_perp_' + m], 2.
                        if mu != 2.:
                            for f in range(3, n + 1):
                                e = mu if f == n else edge[f + 1]
                                ref *= (a(e, f) / a(s, f))**(4 / (33 - 2. * f))
                                s = e
                    except ValueError:
                        continue        # alpha_s not available
                    v = R.get_f_perp(par, m, mu, nf_out=nf_out)
                    c.expect(v is not None and abs(v / ref - 1) < 1e-9, 'fperp/%s/%r/%s' % (m, mu, nf_out), 'f_perp(%r, nf=%s) = %r instead of %r' % (mu, nf_out, v, ref))


def near(v, r):
    v, r = np.asarray(v), np.asarray(r)
    return v.shape == r.shape and np.abs(v - r).max() < 3e-5 * np.abs(r).max()


# -- generic evolution -------------------------------------------------------------
def adm(nf, als, ale):
    g = np.array([[4., 1., 0.], [nf - 2., -3., .5], [.3, 0., 2. + .1 * nf]])
    h = np.array([[0., .2, .1], [.4, .3, 0.], [0., .6, -1. * nf]])
    return als / (4 * PI) * g + (als / (4 * PI))**2 * 10 * h + ale / (4 * PI) * h.T * 3


def beta_als(als, ale, nf):
    """d alpha_s / d mu * mu"""
    a, e = als / (4 * PI), ale / (4 * PI)
    s = (33 - 2 * nf) / 3. + (102 - 38 * nf / 3.) * a + (1428.5 - 5033 * nf / 18. + 325 * nf**2 / 54.) * a * a - 22 / 9. * e
    return s, a, e


def evo_ref(x0, mu0, mu1, t, nf_out, der):
    """own integration: der(nf) -> f(x, mu)"""
    edge = {4: t['mc'], 5: t['mb'], 6: t['mt']}
    x, mu = np.array(x0, dtype=float), mu0
    if mu0 == mu1:
        return x
    down = mu1 < mu0
    if down:
        nf = 3 + (mu > edge[4]) + (mu > edge[5]) + (mu > edge[6])
        end = max(nf_out or 0, 3 + (mu1 >= edge[4]) + (mu1 >= edge[5]) + (mu1 >= edge[6]))
    else:
        nf = 3 + (mu >= edge[4]) + (mu >= edge[5]) + (mu >= edge[6])
        end = 3 + (mu1 > edge[4]) + (mu1 > edge[5]) + (mu1 > edge[6])
    while True:
        stop = mu1 if nf == end else (edge[nf] if down else edge[nf + 1])
        f = der(nf)
        if stop != mu:
            x = rk4(lambda L, y: np.array(f(y, math.exp(L))) * math.exp(L), x, math.log(mu), math.log(stop), 80)
        mu = stop
        if nf == end:
            return x
        nf += -1 if down else 1


def simple_der(nf):
    A = np.array([[-.1 * nf, .03, .0], [0., .02 * nf, -.05], [.1, 0., -.2]])
    return lambda x, mu: A.dot(x) / mu


EVO_MU = [0.5, 1., 2., 4.18, 4.5, 10., 120., 173.21, 400.]


def evolution(c, item):
    t, mu0, mu1 = item
    with thresholds(t):
        x0 = [1.3, -.7, .4]
        lo = nf_of(mu1, t)
        # flavours just below the starting scale
        hi = 3 + (mu0 > t['mc']) + (mu0 > t['mb']) + (mu0 > t['mt'])
        nfs = [None] + ([n for n in range(lo, hi + 1)] if mu1 < mu0 else [])
        for nf_out in nfs:
            c.state()
            x = list(x0)
            v = R.rg_evolve_sm(x, simple_der, mu0, mu1, nf_out)
            r = evo_ref(x0, mu0, mu1, t, nf_out, simple_der)
            c.expect(near(v, r), 'evo/%r/%r/%s' % (mu0, mu1, nf_out), 'evolution from %r to %r (nf_out=%s, %r): %r instead of %r' % (mu0, mu1, nf_out, t, v, r))
            c.expect(x == x0, 'evoin/%r/%r' % (mu0, mu1), 'the initial condition was modified')
            c.trace()
        # there and back
        back = R.rg_evolve_sm(R.rg_evolve_sm(x0, simple_der, mu0, mu1), simple_der, mu1, mu0)
        c.expect(near(back, x0), 'evoback/%r/%r' % (mu0, mu1), 'evolving from %r to %r and back: %r instead of %r' % (mu0, mu1, back, x0))
        for mid in EVO_MU:
            v = R.rg_evolve_sm(R.rg_evolve_sm(x0, simple_der, mu0, mid), simple_der, mid, mu1)
            r = R.rg_evolve_sm(x0, simple_der, mu0, mu1)
            c.expect(near(v, r), 'evopath/%r/%r/%r' % (mu0, mid, mu1), 'evolution from %r to %r depends on the path' % (mu0, mu1))


def wilson(c, item):
    mu0, mu1 = item
    t = dict(cfg())
    par = {'alpha_s': .1181, 'alpha_e': 1 / 127.9}
    der = R.make_wilson_rge_derivative(adm)
    for cin in ([1., .2 - .3j, -.5], [1j, 0, 0], [0.3, 1., 2.]):
        for nf_out in (None, 5):
            if nf_out and not (nf_of(mu0, t) == 5 and mu1 <= mu0):
                continue
            c.state()
            key = 'wilson/%r/%r/%s/%r' % (mu0, mu1, nf_out, cin)
            c0 = np.array(cin)
            v = R.get_wilson(par, c0, der, mu0, mu1, nf_out=nf_out)
            c.expect(np.array_equal(c0, np.array(cin)), key + '/in', 'the initial condition was modified')
            a = R.get_alpha(par, mu0, nf_out=nf_out)

            def dref(nf):
                def f(y, mu):
                    als, ale = y[-2], y[-1]
                    cc = y[0:6:2] + 1j * y[1:6:2]
                    dc = adm(nf, als, ale).T.dot(cc) / mu
                    s, aa, e = beta_als(als, ale, nf)
                    s += -(308 / 27.) * aa * e + 4945 / 243. * e * e
                    das = -als**2 / (2 * PI * mu) * s
                    dae = ale**2 / (2 * PI * mu) * (80 / 9. + 464 / 27. * e + 176 / 9. * aa)
                    return np.array([x for z in dc for x in (z.real, z.imag)] + [das, dae])
                return f
            x = [w for z in cin for w in (complex(z).real, complex(z).imag)] + [a['alpha_s'], a['alpha_e']]
            r = evo_ref(x, mu0, mu1, t, nf_out, dref)
            r = r[0:6:2] + 1j * r[1:6:2]
            c.expect(near(v, r), key, 'Wilson coefficients %r at %r (from %r, nf_out=%s): %r instead of %r' % (cin, mu1, mu0, nf_out, v, r))
            c.trace()


# histories ------------------------------------------------------------------------
def histories(c, item):
    """all sequences of evolutions with changes of the thresholds and in-place
    modifications of the results in between"""
    seq = item
    calls = {'A': (160., 4.2, None), 'B': (160., 2., None), 'C': (160., 2., 5), 'D': (1., 160., None), 'E': (3., 3., None)}
    t = dict(THR[0])
    par = {'alpha_s': .1181, 'alpha_e': 1 / 127.9}
    with thresholds(t):
        x0 = np.array([1.3, -.7, .4])
        for k, op in enumerate(seq):
            key = 'hist/%s' % ''.join(seq[:k + 1])
            if op == 'T':
                new = THR[1] if cfg()['mb'] == THR[0]['mb'] else THR[0]
                cfg().update(new)
                t = dict(new)
                continue
            mu0, mu1, nf = calls[op]
            c.state()
            v = R.rg_evolve_sm(x0, simple_der, mu0, mu1, nf)
            r = evo_ref(x0, mu0, mu1, t, nf, simple_der)
            c.expect(near(v, r), key, 'after %r, the evolution from %r to %r gives %r instead of %r' % (seq[:k], mu0, mu1, v, r))
            v *= 3.      # the result belongs to the caller
            w = R.get_wilson(par, [1., 2j, .3], DER, mu0, mu1, nf)
            if op not in WREF:
                WREF[op] = {}
            ref = WREF[op].setdefault(t['mb'], np.array(w))
            c.expect(np.array_equal(w, ref), key + '/w', 'after %r, get_wilson from %r to %r gives %r instead of %r' % (seq[:k], mu0, mu1, w, ref))
            w *= 0
            c.trace()


WREF = {}
DER = R.make_wilson_rge_derivative(adm)


def guard(c):
    for mu in (0.05, 0.0999, 1e-3):
        c.state()
        try:
            R.rg_evolve_sm([1.], lambda nf: (lambda x, m: x / m), 2., mu)
        except ValueError:
            c.trans()
        else:
            c.fail('below/%r' % mu, 'evolution below the strange threshold does not raise')


def dispatch(c, item):
    kind, x = item
    dict(qed=qed, qcd=qcd, fperp=fperp, evo=evolution, wilson=wilson, hist=histories)[kind](c, x)


def run(c):
    c.assumptions += ['alpha_s, MSbar and pole masses come from RunDec (dependency, matching at its own thresholds); decided is that they solve the three-loop equations at fixed number of flavours, have the parameter as input and are continuous within 2-3 % at the thresholds']
    items = [('qed', (t, a)) for t in THR for a in (1 / 127.9, 1 / 128.5)]
    items += [('qcd', (a, m)) for a in (.1181, .115, .121) for m in (1., 1.4)]
    items += [('fperp', (t, a)) for t in THR for a in (.1181, .115)]
    items += [('evo', (t, a, b)) for t in THR for a in EVO_MU for b in EVO_MU]
    mus = [1., 2., 4.2, 10., 91.1876, 160., 300.]
    items += [('wilson', (a, b)) for a in mus for b in mus]
    depth = 4 if c.thorough else 3
    ops = 'ABCDET'
    items += [('hist', s) for s in itertools.product(ops, repeat=depth)]
    # reference values of get_wilson for every call, from a clean state
    with thresholds(THR[0]):
        pass
    c.extra.update(sequences=len(ops)**depth, evolutions=len(THR) * len(EVO_MU)**2)
    guard(c)
    mc.parallel(c, dispatch, items)
    c.sample('sequences of evolutions (A..E) and threshold changes T, e.g. ATA')
    c.sample('alpha_e at scales %s for nf 3..6' % scales(THR[0])[:6])
