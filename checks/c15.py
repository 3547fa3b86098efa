"""C15: the CKM matrix.

 * grid over the whole parameter space (incl. unphysically large angles, all
   quadrants of the phase): the matrix in each of the four parametrisations
   against the textbook formula, unitarity, the moduli/angles the parameters
   stand for, unitarity-triangle angles, all combinations xi;
 * all histories (to a depth) of switching implementation and parameters;
 * every observable: same SM prediction whichever parametrisation is used at
   equivalent parameters."""
import itertools, cmath, math
import numpy as np
import mc, phys
import flavio
from flavio.physics import ckm


def standard(t12, t13, t23, d):
    s12, s13, s23 = map(math.sin, (t12, t13, t23))
    c12, c13, c23 = map(math.cos, (t12, t13, t23))
    e = cmath.exp(1j * d)
    return np.array([[c12 * c13, s12 * c13, s13 / e],
                     [-s12 * c23 - c12 * s23 * s13 * e, c12 * c23 - s12 * s23 * s13 * e, s23 * c13],
                     [s12 * s23 - c12 * c23 * s13 * e, -c12 * s23 - s12 * c23 * s13 * e, c23 * c13]])


def params(V):
    """the parameters of all parametrisations, from their definition"""
    s13 = abs(V[0, 2])
    apex = -V[0, 0] * V[0, 2].conjugate() / (V[1, 0] * V[1, 2].conjugate())     # rhobar + i etabar
    s12 = abs(V[0, 1]) / math.sqrt(1 - s13**2)
    s23 = abs(V[1, 2]) / math.sqrt(1 - s13**2)
    gamma = cmath.phase(apex)
    beta = cmath.phase(-V[1, 0] * V[1, 2].conjugate() / (V[2, 0] * V[2, 2].conjugate()))
    alpha = cmath.phase(-V[2, 0] * V[2, 2].conjugate() / (V[0, 0] * V[0, 2].conjugate()))
    return dict(Vus=abs(V[0, 1]), Vub=s13, Vcb=abs(V[1, 2]), gamma=gamma, beta=beta, alpha=alpha,
                laC=s12, A=s23 / s12**2, rhobar=apex.real, etabar=apex.imag,
                t12=math.asin(s12), t13=math.asin(s13), t23=math.asin(s23))


IMPL = ['Standard', 'Tree', 'Wolfenstein', 'beta gamma']


def angdiff(a, b):
    return abs((a - b + math.pi) % (2 * math.pi) - math.pi)


def point(c, item):
    t12, t13, t23, d = item
    V = standard(*item)
    p = dict(params(V), delta=d)
    c.state()
    key = 'point/%r' % (item,)
    cfg = flavio.config['implementation']
    old = cfg['CKM matrix']
    physical = t12 < .4 and t13 < .01 and t23 < .1
    # ckmutil (a dependency) inverts the trigonometric relations of the tree and
    # beta-gamma parametrisations for |gamma| < pi/2 only, the latter only
    # accurately near the physical region
    quadrant = abs(p['gamma']) < math.pi / 2 and abs(d) < math.pi / 2
    use = [i for i in IMPL if i in ('Standard', 'Wolfenstein') or quadrant and (i == 'Tree' or physical)]
    try:
        for impl in use:
            cfg['CKM matrix'] = impl
            c.trace()
            W = np.asarray(ckm.get_ckm(dict(p)))
            tol = 1e-9 if impl != 'beta gamma' else 1e-6
            c.expect(W.shape == (3, 3) and np.allclose(W, V, atol=tol, rtol=0), key + '/' + impl, '%s: differs from the definition by %.2g' % (impl, np.abs(W - V).max()), point=p)
            c.expect(np.allclose(W @ W.conj().T, np.eye(3), atol=1e-10), key + '/' + impl, '%s: not unitary' % impl, point=p)
            pc = flavio.physics.common.conjugate_par(p)
            c.expect(set(pc) == set(p) and flavio.physics.common.conjugate_par(pc) == p and all(pc[k] == p[k] for k in p if k not in ('alpha', 'beta', 'gamma', 'delta', 'etabar')), key + '/' + impl + '/conj', 'CP conjugation of the parameters: %r' % pc, point=p)
            Wc = np.asarray(ckm.get_ckm(pc))
            c.expect(np.allclose(Wc, V.conj(), atol=tol, rtol=0), key + '/' + impl + '/conj', '%s: matrix of the CP-conjugated parameters differs from the conjugate matrix by %.2g' % (impl, np.abs(Wc - V.conj()).max()), point=p)
            for f, n in ((ckm.get_ckmangle_alpha, 'alpha'), (ckm.get_ckmangle_beta, 'beta'), (ckm.get_ckmangle_gamma, 'gamma')):
                c.expect(angdiff(f(p), p[n]) < max(tol * 100 / abs(V[0, 2]), 1e-8), key + '/' + n, 'angle %s = %r instead of %r (%s)' % (n, f(p), p[n], impl), point=p)
        cfg['CKM matrix'] = 'Standard'
        L = p['laC'], p['A'], p['rhobar'], p['etabar']
        if quadrant and d > 0:
            L = ckm.tree_to_wolfenstein(p['Vus'], p['Vub'], p['Vcb'], p['gamma'])
        c.expect(np.allclose([float(x) for x in L], [p['laC'], p['A'], p['rhobar'], p['etabar']], rtol=1e-8, atol=1e-9), key + '/wolf', 'tree -> Wolfenstein: %r' % (L,), point=p)
        W = np.asarray(ckm.get_ckm(p))
        c.expect(np.allclose(ckm.ckm_standard(t12, t13, t23, d), V, atol=1e-12) and (not quadrant or np.allclose(ckm.ckm_tree(p['Vus'], p['Vub'], p['Vcb'], p['gamma']), V, atol=1e-9))
                 and np.allclose(ckm.ckm_wolfenstein(p['laC'], p['A'], p['rhobar'], p['etabar']), V, atol=1e-9), key + '/functions', 'matrix functions', point=p)
        up, dn = 'uct', 'dsb'
        for i, a in enumerate(up):
            for (j, x), (k, y) in itertools.product(enumerate(dn), repeat=2):
                c.expect(abs(ckm.xi(a, x + y)(p) - W[i, j] * W[i, k].conj()) < 1e-13, key + '/xi/%s%s%s' % (a, x, y), 'xi_%s^%s%s' % (a, x, y), point=p)
        for i, a in enumerate(dn):
            for (j, x), (k, y) in itertools.product(enumerate(up), repeat=2):
                c.expect(abs(ckm.xi(a, x + y)(p) - W[j, i] * W[k, i].conj()) < 1e-13, key + '/xi/%s%s%s' % (a, x, y), 'xi_%s^%s%s' % (a, x, y), point=p)
        for k, l, i, j in itertools.product(range(3), repeat=4):
            c.expect(ckm.xi_kl_ij(p, k, l, i, j) == W[k, i] * W[l, j].conj(), key + '/xi_kl_ij', 'xi_kl_ij%r' % ((k, l, i, j),), point=p)
    finally:
        cfg['CKM matrix'] = old


def histories(c, first):
    pts = []
    for i, (a, b, g, d) in enumerate([(.226, .0036, .041, 1.2), (.226, .0036, .041, -1.2), (.226, .0037, .042, 1.2), (.23, .0036, .041, 1.2)]):
        V = standard(a, b, g, d)
        pts.append((V, dict(params(V), delta=d)))
    moves = [(i, j) for i in range(4) for j in range(4)]
    depth = 4 if c.thorough else 3
    cfg = flavio.config['implementation']
    old = cfg['CKM matrix']
    try:
        for rest in itertools.product(range(len(moves)), repeat=depth - 1):
            c.state(); c.trace()
            for j in (first,) + rest:
                impl, ip = moves[j]
                cfg['CKM matrix'] = IMPL[impl]
                V, p = pts[ip]
                c.expect(np.allclose(ckm.get_ckm(p), V, atol=1e-7), 'history/%s' % ((first,) + rest,), 'matrix after history %s' % ([moves[k] for k in (first,) + rest],))
    finally:
        cfg['CKM matrix'] = old


def single(c):
    """one parameter changes between two evaluations (matrix and xi follow)"""
    cfg = flavio.config['implementation']
    old = cfg['CKM matrix']
    V0 = standard(.227, .0037, .041, 1.2)
    p0 = dict(params(V0), delta=1.2)
    pars = {'Standard': ('t12', 't13', 't23', 'delta'), 'Tree': ('Vus', 'Vub', 'Vcb', 'gamma'),
            'Wolfenstein': ('laC', 'A', 'rhobar', 'etabar'), 'beta gamma': ('Vus', 'Vcb', 'beta', 'gamma')}
    try:
        for impl in IMPL:
            cfg['CKM matrix'] = impl
            for n in pars[impl]:
                for f in (1.03, 1 + 1e-5):
                    p1 = dict(p0)
                    p1[n] = p0[n] * f
                    seen = []
                    for p in (p0, p1, p0):
                        c.state(); c.trace()
                        W = np.asarray(ckm.get_ckm(p))
                        seen.append(W)
                        for a, (i, x), (j, y) in itertools.product(range(3), enumerate('dsb'), enumerate('dsb')):
                            c.expect(abs(ckm.xi('uct'[a], x + y)(p) - W[a, i] * W[a, j].conj()) < 1e-15, 'single/%s/%s/%g' % (impl, n, f), 'xi_%s^%s does not follow the matrix' % ('uct'[a], x + y))
                        for a, (i, x), (j, y) in itertools.product(range(3), enumerate('uct'), enumerate('uct')):
                            c.expect(abs(ckm.xi('dsb'[a], x + y)(p) - W[i, a] * W[j, a].conj()) < 1e-15, 'single/%s/%s/%g' % (impl, n, f), 'xi_%s^%s does not follow the matrix' % ('dsb'[a], x + y))
                    c.expect(np.array_equal(seen[0], seen[2]) and np.allclose(seen[0], V0, atol=1e-6), 'single/%s/%s/%g' % (impl, n, f), 'matrix depends on history')
                    q = {'Vus': lambda V: abs(V[0, 1]), 'Vub': lambda V: abs(V[0, 2]), 'Vcb': lambda V: abs(V[1, 2])}.get(n, lambda V: params(V).get(n, None))
                    got = q(seen[1])
                    if got is not None:
                        c.expect(abs(got / p1[n] - 1) < 1e-7 if impl != 'beta gamma' else abs(got / p1[n] - 1) < 1e-3, 'single/%s/%s/%g' % (impl, n, f), '%s of the matrix is %r instead of %r' % (n, got, p1[n]))
                    if f > 1.01:
                        c.expect(np.abs(seen[1] - seen[0]).max() > 1e-6, 'single/%s/%s' % (impl, n), 'matrix does not follow the parameter')
    finally:
        cfg['CKM matrix'] = old


ZERO = ('ACP(B->Xgamma)', 'phi12_D', 'x12Im_D')     # vanish in the SM up to rounding


def observable(c, n):
    P = flavio.default_parameters.get_central_all()
    out = []
    sm = flavio.WilsonCoefficients()
    o = flavio.Observable[n]
    grid = phys.arg_grid(o)[:1]
    cfg = flavio.config['implementation']
    V = standard(*_std(P))
    p = dict(P, **{k: v for k, v in params(V).items() if k in ('beta', 'laC', 'A', 'rhobar', 'etabar', 't12', 't13', 't23')}, delta=_std(P)[3])
    for a in grid:
        vals = []
        for impl in ('Tree',) + tuple(i for i in IMPL if i != 'Tree'):
            cfg['CKM matrix'] = impl
            try:
                vals.append(o.prediction_par(p, sm, *a))
            except Exception as e:
                vals.append('exc ' + type(e).__name__)
        cfg['CKM matrix'] = 'Tree'
        c.state(); c.trace()
        v0 = vals[0]
        for impl, v in zip(IMPL[:1] + IMPL[2:], vals[1:]):
            ok = v == v0 or (not isinstance(v, str) and not isinstance(v0, str) and abs(v - v0) <= 2e-6 * abs(v0) + (1e-17 if n in ZERO else 0.))
            c.expect(ok, 'observable/%s/%s' % (impl, n), '%s%s: %r with %s, %r with Tree parametrisation' % (n, a, v, impl, v0), observable=n, args=a)


def _std(P):
    """standard parameters equivalent to the default (tree) ones: solve for delta"""
    s13 = P['Vub']
    c13 = math.sqrt(1 - s13**2)
    t12, t13, t23 = math.asin(P['Vus'] / c13), math.asin(s13), math.asin(P['Vcb'] / c13)
    d = P['gamma']
    for _ in range(50):
        V = standard(t12, t13, t23, d)
        d += P['gamma'] - cmath.phase(-V[0, 0] * V[0, 2].conjugate() / (V[1, 0] * V[1, 2].conjugate()))
    return t12, t13, t23, d


def run(c):
    ds = [-3., -1.9, -.7, .3, 1.21, 1.9, 2.8]
    g = [.05, .226, .5, .9], [.0005, .0036, .05, .3], [.005, .041, .2, .7]
    if c.thorough:
        ds = [x * .31 for x in range(-10, 11) if x]
        g = [.05, .15, .226, .5, .9, 1.3], [.0005, .0036, .01, .05, .3, .8], [.005, .02, .041, .2, .7, 1.2]
    items = [('point', x) for x in itertools.product(*g, ds)]
    items += [('histories', j) for j in range(16)]
    items += [('observable', n) for n in flavio.Observable.instances if phys.arg_grid(flavio.Observable[n])]
    def do(cs, it):
        globals()[it[0]](cs, it[1])
        cs.sample(repr(it))
    mc.parallel(c, do, items, chunk=4)
    single(c)
