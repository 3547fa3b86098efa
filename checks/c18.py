"""C18: rates and distributions are physical for every value of the Wilson coefficients.

A rate is a quadratic polynomial in the real and imaginary parts of the Wilson
coefficients.  All its coefficients are obtained by evaluating the prediction on
the complete interpolation set (the standard-model point, plus and minus every
unit vector, and every sum of two unit vectors).  The polynomial is then known
everywhere, and it is decided exactly whether it is non-negative everywhere
(positive semi-definiteness), instead of at some points."""
import re, math
import numpy as np
import mc, phys, semilep
import flavio
from wilson import wcxf

FOURQUARK = re.compile(r'^(C[1-6]p?_|CV|CS|CT)')
LEP = ('e', 'mu', 'tau', 'nu')
LEP3 = ('e', 'mu', 'tau')
B0 = {e: wcxf.Basis[e, 'flavio'] for e in ('WET', 'WET-4')}


class Frame:
    """the coefficients a set of predictions depends on, and the interpolation set in them"""

    def __init__(self, eft, scale, par):
        self.eft, self.scale, self.par = eft, scale, par

    def wc(self, d):
        w = flavio.WilsonCoefficients()
        if d:
            w.set_initial(d, self.scale, eft=self.eft, basis='flavio')
        return w

    def variables(self, f):
        """[(coefficient, 1 or 1j)] of everything f depends on; f: coefficients -> array"""
        B = B0[self.eft]
        f0 = f({})
        ref = np.abs(f0[0])
        secs = []
        for s in B.sectors:
            if s.startswith('nunu') or s == 'ffnunu' or s in ('sbsb', 'dbdb', 'sdsd', 'cucu'):
                continue                # modify the extraction of G_F, the mixing phases
            v = phys.wc_values(self.eft, 'flavio', sectors=[s], size=.01)
            v = {k: x for k, x in v.items() if not (FOURQUARK.match(k) and not any(l in k.split('_', 1)[1] for l in LEP))}
            if v and abs(f(v)[0] - f0[0]) > 1e-13 * ref:
                secs.append(s)
        out = []
        for s in secs:
            for k, d in B.sectors[s].items():
                if FOURQUARK.match(k) and not any(l in k.split('_', 1)[1] for l in LEP):
                    continue
                real = bool((d or {}).get('real'))
                u = [1.] if real else [1., 1j]
                if any(abs(f({k: h * x})[0] - f0[0]) > 1e-13 * max(ref, 1e-300) for x in u for h in (.01, -.01)):
                    out += [(k, x) for x in u]
        return out


def combine(*terms):
    d = {}
    for (k, u), h in terms:
        d[k] = d.get(k, 0) + u * h
    return d


def forms(f, var, cc):
    """the matrices of the quadratic forms f_i(x) = (1, x) M_i (1, x), and how well f is reproduced elsewhere"""
    N = len(var)
    f0 = f({})
    n = 0
    # a size of every coefficient for which it changes the first component by order one
    h = []
    for v in var:
        p, m = f(combine((v, 1.)))[0], f(combine((v, -1.)))[0]
        q = abs(p + m - 2 * f0[0]) / 2
        h.append(math.sqrt(f0[0] / q) if q > 0 and f0[0] > 0 else 1. if f0[0] > 0 or q == 0 else math.sqrt(1. / q))
    size = {}
    for (k, u), x in zip(var, h):
        size.setdefault(k, x)
    h = [.7 * size[k] for k, u in var]  # the same for real and imaginary parts
    fp = [f(combine((v, x))) for v, x in zip(var, h)]
    fm = [f(combine((v, -x))) for v, x in zip(var, h)]
    n += 4 * N + 1
    M = np.zeros((len(f0), N + 1, N + 1))
    M[:, 0, 0] = f0
    for i in range(N):
        M[:, i + 1, i + 1] = (fp[i] + fm[i] - 2 * f0) / 2
        M[:, 0, i + 1] = M[:, i + 1, 0] = (fp[i] - fm[i]) / 4
        for j in range(i):
            v = f(combine((var[i], h[i]), (var[j], h[j])))
            n += 1
            M[:, i + 1, j + 1] = M[:, j + 1, i + 1] = (v - fp[i] - fp[j] + f0) / 2
    err = 0.
    for sg in (1, -1):
        x = np.array([1.] + [sg * (-1)**i * (0.4 + .1 * (i % 5)) for i in range(N)])
        t = f(combine(*[(v, a * y) for v, a, y in zip(var, h, x[1:])]))
        p = np.array([x @ m @ x for m in M])
        err = max(err, float(np.abs(p - t).max() / np.abs(t[0])))
        n += 1
    cc.state(n); cc.trace(n * len(f0))
    return M, err


def mineig(M, D):
    """smallest eigenvalue of M in units of D"""
    d = np.diag(D)
    keep = d > 1e-14 * d.max()
    s = 1 / np.sqrt(d[keep])
    A = M[np.ix_(keep, keep)] * s[:, None] * s[None, :]
    w, U = np.linalg.eigh(A)
    x = np.zeros(len(d)); x[keep] = U[:, 0] * s
    return float(w[0]), x


def orientation(k):
    """in which direction the coefficient is rotated by a rephasing of the lepton fields (or of the quark fields, if the leptons are the same)"""
    t = [x for x in re.findall(r'numu|nutau|nue|tau|mu|e|.', k.split('_', 1)[1])]
    q = {'e': 0, 'mu': 0, 'tau': 0}
    n = 0
    for x in t:
        if x in LEP3 or x.startswith('nu'):
            if x in q:
                q[x] += 1 if n % 2 else -1
            n += 1
    for x in LEP3:
        if q[x]:
            return q[x] // abs(q[x])
    return 1


def rephasing(M, var):
    """the largest change of the part of second order under a common phase of the coefficients"""
    idx = {v: i for i, v in enumerate(var)}
    if not var or any((k, 1j) not in idx or (k, 1.) not in idx for k, _ in var):
        return 0.                       # some coefficients are real
    N = len(var)
    Q = M[1:, 1:]
    J = np.zeros((N, N))
    for k, u in var:
        J[idx[k, 1j], idx[k, 1.]] = orientation(k)
        J[idx[k, 1.], idx[k, 1j]] = -orientation(k)
    d = np.sqrt(np.abs(np.diag(Q)))
    d = np.maximum(d, np.abs(J) @ d) + 1e-300
    return float(np.abs((J.T @ Q @ J - Q) / d[:, None] / d[None, :]).max())


FIELDS = ('e', 'mu', 'tau', 'nue', 'numu', 'nutau')


def charges(k):
    """how often the coefficient contains each lepton field minus its conjugate"""
    q = dict.fromkeys(FIELDS, 0)
    n = 0
    for x in re.findall(r'numu|nutau|nue|tau|mu|e|.', k.split('_', 1)[1]):
        if x in q:
            q[x] += 1 if n % 2 else -1
            n += 1
    return q


def lepton_phases(M, var):
    """the largest change under a rotation of the phase of a single lepton field (second order), or of a lepton and its neutrino (all)"""
    idx = {v: i for i, v in enumerate(var)}
    N = len(var)
    worst = (0., None)
    for fields in [(x,) for x in FIELDS] + [('e', 'nue'), ('mu', 'numu'), ('tau', 'nutau')]:
        J = np.eye(N + 1)
        ok = True
        for k, u in var:
            q = sum(charges(k)[x] for x in fields)
            if q % 4 == 0:
                continue
            if (k, 1j) not in idx or (k, 1.) not in idx:
                ok = False
                break
            ph = 1j**(q % 4)
            i = 1 + idx[k, u]
            v = u * ph                      # u -> v = one of 1, i, -1, -i
            J[i, i] = 0
            t, sg = (1., v.real) if abs(v.imag) < .5 else (1j, v.imag)
            J[1 + idx[k, t], i] = sg
        if not ok or (J == np.eye(N + 1)).all():
            continue
        A, B = M, J.T @ M @ J
        if len(fields) == 1:
            A, B = A[1:, 1:], B[1:, 1:]
        d = np.sqrt(np.abs(np.diag(A)) + np.abs(np.diag(B)) + 1e-300)
        r = float(np.abs((B - A) / d[:, None] / d[None, :]).max())
        if r > worst[0]:
            worst = (r, '+'.join(fields))
    return worst


# ---------------------------------------------------------------- the decays
def rate_items(c):
    out = []
    frac = (.07, .3, .5, .9) if c.thorough else None
    for n, o in flavio.Observable.instances.items():
        a = tuple(o.arguments or ())
        if not c.thorough and re.search(r'mumu|munu|mutau|taumu', n):
            continue                    # the same as with the other leptons: C25
        if n.startswith(('dBR/dq2', 'dBR_L/dq2', 'dBR_T/dq2')):
            proc = n.split('dq2', 1)[1]
            if re.search(r'->X|lnu\)$|ll\)$', proc):
                continue
            r = semilep.region(proc)
            if r is None:                       # B->llgamma
                qs = (2., 4., 16.) if c.thorough else (2., 16.)
            else:
                lo, hi, tail = r
                qs = [lo + x * (hi - lo) for x in frac or ((.3,) if len(out) % 2 else (.8,))]
            for q in qs:
                out.append((n, (q,)))
        elif not a and RATES.match(n):
            if not c.thorough and re.match(r'CR\(mu->e, (?!Au)', n):
                continue                    # the nuclei differ in numbers only
            if not c.thorough and INTEGRATED.match(n) and not re.search(r'B0->K(emu|\*etau)', n):
                continue                    # charge modes and flavours: C19, C25
            out.append((n, ()))
    # the expensive ones first
    return sorted(out, key=lambda t: not re.match(r'CR|BR\(mu|BR\(tau->(e|mu){3}', t[0]) and not INTEGRATED.match(t[0]))


RATES = re.compile(r'^BR\((B\+|B0|Bs|Bc|D\+|Ds|K\+)->(e|mu|tau)nu\)$'
                   r'|^BR\((tau)->(K|pi)nu\)$'
                   r'|^BR\(B->Xc(e|mu|tau)nu\)$'
                   r'|^BR\((B0|Bs|KL|KS|D0)->(ee|mumu|tautau|emu|mue|etau|taue|mutau|taumu)\)$|^BR\(K[LS]->emu,mue\)$'
                   r'|^BR\((B0|B\+|Bs)->(K\*?|pi|rho|phi)(emu|mue|etau|taue|mutau|taumu)\)$'
                   r'|^BR\((B0|B\+|Bs)->(K\*|phi|K\*\+|K\*0)gamma\)$'
                   r'|^BR\((K\+|KL)->pi0?\+?nunu\)$'
                   r'|^BR\((mu|tau)->(e|mu)gamma\)$|^BR\((mu|tau)->(e|mu){3}\)$'
                   r'|^BR\(tau->(pi|K|rho|phi)?(e|mu)\)$|^BR\(tau->(rho|phi|pi|K)(e|mu)\)$'
                   r'|^CR\(mu->e,\s*\w+\)$'
                   r'|^BR\((J/psi|psi|Upsilon|chi_|eta_)')


def family(n):
    if re.search(r'\((J/psi|psi|eta_c|chi_c)', n):
        return 'WET', 2.
    if re.search(r'\((Upsilon|eta_b|chi_b)', n):
        return 'WET', 10.
    if re.search(r'\((mu|tau)->|^CR', n):
        return 'WET-4', 1.8
    if re.search(r'\((K|pi)', n):
        return 'WET', 4.8
    return 'WET', 4.8


def evaluate(names, args, frame, times=True):
    obs = [flavio.Observable[n] for n in names]
    def f(d):
        w = frame.wc(d)
        v = np.array([o.prediction_par(frame.par, w, *args) for o in obs], dtype=float)
        if times:
            v[1:] *= v[0]
        return v
    return f


INTEGRATED = re.compile(r'^BR\((B0|B\+|Bs)->(K\*?|pi|rho|phi)(emu|mue|etau|taue|mutau|taumu)\)$')
FORBIDDEN = ('BR(J/psi->tautau)',)
MIXED = re.compile(r'^BR\((KL|KS|Bs|B0)->(ee|mumu|tautau|pinunu)|^BR\(K|Bs->.*(ee|mumu|tautau|gamma)\)|^BR\(KS->|^BR\(KL->')


def rates(c, par):
    scales = flavio.config['renormalization scale']

    def one(cc, it):
        n, args = it
        frame = Frame(*(family(n) + (par,)))
        f = evaluate([n], args, frame)
        try:
            var = frame.variables(f)
            M, err = forms(f, var, cc)
        except Exception as e:
            cc.expect(False, '%s%r/evaluates' % (n, args), '%s%r cannot be evaluated: %s' % (n, args, mc.exc_text(e)), observable=n)
            return
        M = M[0]
        if not cc.expect(np.isfinite(M).all(), '%s%r/finite' % (n, args), '%s%r is not finite for some Wilson coefficients' % (n, args), observable=n, args=args):
            return
        if not cc.expect(M.any() or n in FORBIDDEN, '%s%r/zero' % (n, args), '%s%r vanishes for all Wilson coefficients' % (n, args), observable=n) or not M.any():
            return
        tol = 1e-5 if INTEGRATED.match(n) else 1e-8
        cc.expect(err < 100 * tol, '%s%r/quadratic' % (n, args),
                  '%s%r is not a polynomial of second order in the Wilson coefficients: relative deviation %.3g' % (n, args, err), observable=n, args=args)
        e, x = mineig(M, np.abs(M))
        pt = {'%s*%s' % (k, u): float(v / (x[0] or 1.)) for (k, u), v in zip(var, x[1:])}
        cc.expect(e >= -tol, '%s%r/negative' % (n, args),
                  '%s%r is negative for some Wilson coefficients (eigenvalue %.4g), e.g. direction %s' % (n, args, e, {k: round(v, 4) for k, v in pt.items() if abs(v) > 1e-3}),
                  observable=n, args=args)
        if not MIXED.search(n):
            r = rephasing(M, var)
            cc.expect(r < 10 * tol, '%s%r/phase' % (n, args),
                      '%s%r: the contribution of second order depends on a common phase of all Wilson coefficients (relative change %.3g)' % (n, args, r), observable=n, args=args)
        r, fields = lepton_phases(M, var)
        cc.expect(r < 10 * tol, '%s%r/lepton phase' % (n, args),
                  '%s%r depends on the unphysical phase of the lepton fields %s (relative change %.3g)' % (n, args, fields, r), observable=n, args=args)
        cc.sample('%s%r: %d real parameters, deviation %.1g, smallest eigenvalue %.1g' % (n, args, len(var), err, e))
        cc.extra.setdefault('rates', []).append((n, args, len(var), err, e))
    mc.parallel(c, one, rate_items(c), chunk=1)


def bound_items(c):
    """[(process, q2, names of normalised observables)]"""
    by = {}
    for n, o in flavio.Observable.instances.items():
        m = BOUNDED.match(n)
        if m and tuple(o.arguments or ()) == ('q2',) and (c.thorough or 'mumu' not in n):
            by.setdefault(m.group(2), []).append(m.group(1))
    out = []
    for proc, obs in sorted(by.items()):
        if 'dBR/dq2' + proc not in flavio.Observable.instances or '->X' in proc:
            continue
        lo, hi, tail = semilep.region(proc)
        for x in ((.1, .35, .6, .9) if c.thorough else (.2,) if len(out) % 3 else (.8,)):
            out.append((proc, lo + x * (hi - lo), sorted(obs)))
    return out


BOUNDED = re.compile(r'^(FL|FH|AFB|AFBl|AFBh|AFBlh|ACP|S\d\w?|A\d\w?|S_\w+|A_\w+)(\(.*(?:ee|mumu|tautau|nunu)\))$')


def bounds(c, par):
    def one(cc, it):
        proc, q2, obs = it
        D = 'dBR/dq2' + proc
        frame = Frame('WET', 4.8, par)
        var = frame.variables(evaluate([D], (q2,), frame))
        f = evaluate([D] + [o + proc for o in obs], (q2,), frame)
        M, err = forms(f, var, cc)
        cc.expect(err < 1e-8, 'norm/%s/%.4g/quadratic' % (proc, q2), '%s: rate times asymmetries %s not of second order in the Wilson coefficients: deviation %.3g' % (proc, obs, err), process=proc)
        for o, X in zip(obs, M[1:]):
            l, h = (0, 1) if o == 'FL' else (0, 3) if o == 'FH' else (-4 / 3, 4 / 3) if o == 'S6c' else (-1, 1)
            for sg, b in ((1, l), (-1, h)):
                e, x = mineig(sg * (X - b * M[0]), M[0])
                cc.state()
                cc.expect(e >= -1e-8, '%s%s(%.4g)/%s' % (o, proc, q2, 'min' if sg > 0 else 'max'),
                          '%s%s at q2=%.4g is %s than %g for some Wilson coefficients (eigenvalue %.4g)' % (o, proc, q2, 'smaller' if sg > 0 else 'larger', b, e), process=proc, q2=q2)
        X = dict(zip(obs, M[1:]))
        grid = 13 if cc.thorough else 9
        worst = None
        n = 0
        for at, F, tol, keep in distributions(proc, q2, X, M[0], var, grid, par):
            if keep is not None:
                F, G = F[np.ix_(keep, keep)], M[0][np.ix_(keep, keep)]
            else:
                G = M[0]
            e, x = mineig(F, G)
            n += 1
            if worst is None or e + tol < worst[0]:
                worst = (e + tol, e, at)
        cc.state(n)
        if worst:
            cc.expect(worst[0] >= 0, 'angular/%s(%.4g)' % (proc, q2), 'angular distribution of %s at q2=%.4g negative at %s for some Wilson coefficients (eigenvalue %.4g)' % (
                proc, q2, worst[2], worst[1]), process=proc, q2=q2)
            cc.sample('angular distribution of %s at q2=%.4g: %d directions, smallest eigenvalue %.1g' % (proc, q2, n, worst[1]))
    mc.parallel(c, one, bound_items(c), chunk=1)


def distributions(proc, q2, X, D, var, grid, par):
    """[(angles, quadratic form of the distribution in these directions, tolerance, indices of the coefficients used)]"""
    ang = [math.pi * i / (grid - 1) for i in range(grid)]
    phis = [2 * math.pi * i / (2 * grid - 2) for i in range(2 * grid - 2)]
    sin, cos = math.sin, math.cos
    if {'FH', 'AFB'} <= set(X):                 # B->P l l
        for a in ang:
            yield 'theta_l=%.3g' % a, .75 * (D - X['FH']) * sin(a)**2 + X['FH'] / 2 + X['AFB'] * cos(a), 1e-9, None
    elif {'AFBl', 'AFBh', 'AFBlh'} <= set(X):   # Lambda_b->Lambda l l: the four quadrants
        for s in (1, -1):
            for t in (1, -1):
                yield 'quadrant %d %d' % (s, t), D + s * X['AFBl'] + t * X['AFBh'] + s * t * X['AFBlh'], 1e-9, None
        if {'S_1c', 'S_6sc'} <= set(X):         # Lambda(1520)
            S = {k[2:]: v for k, v in X.items() if k.startswith('S_')}
            A = {k[2:]: v for k, v in X.items() if k.startswith('A_')}
            for tag, sg in (('average', 0), ('Lambda_b', 1), ('anti-Lambda_b', -1)):
                L = {k: S[k] + sg * A[k] for k in S}
                for a in ang:
                    for b in ang:
                        for p in phis:
                            sl, cl, sk, ck, sp, cp = sin(a), cos(a), sin(b), cos(b), sin(p), cos(p)
                            yield '%s theta_l=%.3g theta_L=%.3g phi=%.3g' % (tag, a, b, p), (
                                ck**2 * (L['1c'] * cl + L['1cc'] * cl**2 + L['1ss'] * sl**2) + sk**2 * (L['2c'] * cl + L['2cc'] * cl**2 + L['2ss'] * sl**2)
                                + sk**2 * sl**2 * (L['3ss'] * cp**2 + L['4ss'] * sp * cp) + sk * ck * cp * sl * (L['5s'] + L['5sc'] * cl)
                                + sk * ck * sp * sl * (L['6s'] + L['6sc'] * cl)), 1e-9, None
        elif 'FL' in X:
            for a in ang:
                yield 'theta_l=%.3g' % a, 3 / 8 * ((D + X['FL']) * sin(a)**2 + 2 * (D - X['FL']) * cos(a)**2) + X['AFBl'] * cos(a), 1e-6, None
    elif {'S3', 'S4', 'S7', 'FL'} <= set(X) and not proc.endswith('tautau)'):
        # vector and dipole operators only, up to lepton masses
        keep = [0] + [i + 1 for i, (k, u) in enumerate(var) if re.match(r'C(7|9|10)p?_', k)]
        lep = 'e' if proc.endswith('ee)') else 'mu'
        tol = 1e-8 + 4 * par['m_' + lep]**2 / q2
        Z = np.zeros_like(D)
        g = lambda k: X.get(k, Z)
        FL = X['FL']
        full = 'S5' in X
        # untagged decays: average over the directions that the unknown observables distinguish
        for mode in (('full',) if full else ('34', '37')):
            S4, S7 = (g('S4'), g('S7')) if full else (g('S4'), Z) if mode == '34' else (Z, g('S7'))
            for a in ang:
                for b in ang:
                    for p in phis:
                        sl, sk, ck = sin(a), sin(b), cos(b)
                        yield 'theta_l=%.3g theta_K=%.3g phi=%.3g' % (a, b, p), 2 / 3 * (
                            .75 * (D - FL) * sk**2 + FL * ck**2 + (.25 * (D - FL) * sk**2 - FL * ck**2) * cos(2 * a) + X['S3'] * sk**2 * sl**2 * cos(2 * p)
                            + S4 * sin(2 * b) * sin(2 * a) * cos(p) + g('S5') * sin(2 * b) * sl * cos(p) + 4 / 3 * g('AFB') * sk**2 * cos(a)
                            + S7 * sin(2 * b) * sl * sin(p) + g('S8') * sin(2 * b) * sin(2 * a) * sin(p) + g('S9') * sk**2 * sl**2 * sin(2 * p)), tol, keep


def neutron(c, par):
    """decay of polarised neutrons: 1 + a beta cos(theta) + b m/E + J.(A beta e + B nu + D beta e x nu) >= 0"""
    O = flavio.Observable
    frame = Frame('WET-3', 2., par)
    var = [(k + '_duenue', u) for k in ('CVL', 'CVR', 'CSL', 'CSR', 'CT') for u in (1., 1j)]
    grid = 13 if c.thorough else 7

    def one(cc, m):
        beta = math.sqrt(1 - m * m)

        def f(d):
            w = frame.wc(d)
            p = lambda n, *a: O[n].prediction_par(par, w, *a)
            b = p('b_n', m)
            r = 1 / p('tau_n', m)
            x = r / (1 + b * m)
            return np.array([r, x, x * b, x * p('a_n'), x * p('A_n'), x * p('B_n', m), x * p('D_n')])
        M, err = forms(f, var, cc)
        cc.expect(err < 1e-8, 'neutron/%g/quadratic' % m, 'neutron decay rate times correlation coefficients not of second order in the Wilson coefficients: %.3g' % err)
        r, x, b, a, A, B, D = M
        worst = (0,)
        for i in range(grid):
            t = math.pi * i / (grid - 1)
            e, nu = np.array([0, 0, 1.]), np.array([math.sin(t), 0, math.cos(t)])
            for k in range(grid):
                tj = math.pi * k / (grid - 1)
                for l in range(2 * grid - 2):
                    p = math.pi * l / (grid - 1)
                    J = np.array([math.sin(tj) * math.cos(p), math.sin(tj) * math.sin(p), math.cos(tj)])
                    F = x + b * m + a * beta * math.cos(t) + A * beta * (J @ e) + B * (J @ nu) + D * beta * (J @ np.cross(e, nu))
                    cc.state()
                    worst = min(worst, (mineig(F, r)[0], t, tj, p))
        cc.expect(worst[0] > -1e-8, 'neutron/%g/negative' % m, 'distribution of polarised neutron decay for m_e/E=%g negative for some Wilson coefficients: eigenvalue %.4g at angles %s' % (m, worst[0], worst[1:]))
    mc.parallel(c, one, (.2, .5, .8, .95) if c.thorough else (.2, .8), chunk=1)


UNIT = re.compile(r'^<?(FL|FLt|AFB|AFBl|AFBh|AFBlh|ACP|A|S\d|A\d|A6s|S_\w+|A_\w+|ADeltaGamma|S_psiK|S_psiphi|S_K\*gamma|S_phigamma|P_?tau|FLtot|FLttot|AFBtot|I3tot|P1|[aADR]_n)>?(\(|$)')
POSITIVE = re.compile(r'^<?(BR\w*|dBR\w*/\w+|CR|Gamma\w*|R(?!T\(|_n)\w*|FH|FL\w*|tau_\w+|DeltaM_[sd]|x12_D|y12_D|mu_\w+|sigma_had|Ft|m_W)>?(/|\(|$)')
MASSLESS = re.compile(r'^<?P1>?\(.*tautau')


def ranges(c, par):
    """every other observable at a number of points: real, finite, in the range its meaning implies"""
    sec = {k: s for s, ks in B0['WET'].sectors.items() for k in ks}
    pts = {}
    for sg in (1, -1):
        for sz in ((.1, 1., 5.) if c.thorough else (1.,)):
            d = {}
            for k, v in phys.wc_values('WET', 'flavio', size=.3 * sz, sign=sg).items():
                if sec[k] in phys.WET_SECTORS_SL:
                    d[k] = v * (.02 if sec[k] in ('mue', 'taue', 'mutau') else .1 if k in ('C1_bs', 'C1_bd', 'C2_bs', 'C2_bd') or k[:2] not in ('C9', 'C1', 'CL', 'CR') else 1.)
            w = flavio.WilsonCoefficients()
            w.set_initial(d, 4.8)
            pts['WET %+g' % (sg * sz)] = w
    for sg in (1, -1):
        w = flavio.WilsonCoefficients()
        w.set_initial(phys.wc_values('SMEFT', 'Warsaw', size=2e-9, sign=sg), 91.1876, eft='SMEFT', basis='Warsaw')
        pts['SMEFT %+d' % sg] = w
    if not c.thorough:
        pts = {k: w for k, w in pts.items() if k in ('WET +1', 'SMEFT -1')}

    def one(cc, n):
        o = flavio.Observable[n]
        args = phys.arg_grid(o)
        if args == phys.BINS and not cc.thorough:
            args = args[1:2]
        for a in args:
            if tuple(o.arguments or ()) == ('q2',) and not cc.thorough and a[0] not in (2., 18.):
                continue
            for tag, w in pts.items():
                if tag.startswith('SMEFT') and not re.match(r'^(mu_|Gamma|R_|A\(|AFB\(|BR\((W|Z)|m_W|sigma|R\(|<dR|R_13)', n) and not cc.thorough:
                    continue
                try:
                    v = o.prediction_par(par, w, *a)
                except Exception as e:
                    continue            # C20
                cc.state(); cc.trace()
                key = '%s%r/%s' % (n, a, tag)
                if not cc.expect(isinstance(v, (int, float)) and math.isfinite(v), key + '/real', '%s%r is %r at %s: not a finite real number' % (n, a, v, tag), observable=n, args=a):
                    continue
                if UNIT.match(n) and not MASSLESS.match(n):
                    cc.expect(abs(v) <= 1 + 1e-6, key + '/unit', '%s%r = %r at %s: absolute value larger than 1' % (n, a, v, tag), observable=n, args=a)
                if POSITIVE.match(n):
                    cc.expect(v >= 0, key + '/positive', '%s%r = %r at %s: negative' % (n, a, v, tag), observable=n, args=a)
    mc.parallel(c, one, list(flavio.Observable.instances))


def run(c):
    par = flavio.default_parameters.get_central_all()
    for part in (rates, bounds, neutron, ranges):
        part(c, par)
