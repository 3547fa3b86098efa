"""C13: CP conjugation.

Conjugating every CP-odd phase (CKM phase and all Wilson coefficients) is an
involution on the space of models; every observable has a definite behaviour
under it. All observables x argument grid x models {SM, NP points}."""
import re
import mc, phys
import flavio
from flavio.physics.common import conjugate_par

ODD = re.compile(r'^<?(ACP|A[3-9]s?|A6[sc]|ATIm|A_\d[a-z]*)>?\(|^(a_fs_[sd]|eps_K|S_psiK|S_psiphi|S_[^(]*gamma|phi_D|phi12_D|x12Im_D|epsp/eps'
                 r'|omega_YbF|omega_HfF|omega_ThO|d_Tl|D_n|R_n)$')
# defined for one of the two CP-conjugate decays only (no CP average): no definite behaviour
ONESIDED = re.compile(r'\(Lambdab->Lambda(ee|mumu)\)|^<?(AFBl?h?|FL)>?\(Lambdab->Lambda|B->X[sd]|->(ee|mumu)gamma\)'
                      r'|ta_u->|mu->e|^BR\(.*CR\(')
# q/p enters with |q/p|=1 understood
APPROX = re.compile(r'^S_[^(]*gamma|^ADeltaGamma|^DeltaGamma')
LOWQ2BIN = re.compile(r'^<')
QUICK_Q2 = {(0.5,), (6.,), (15.,)}


def conj_wc(vals):
    return {k: complex(v).conjugate() * (-1 if 'tilde' in k else 1) for k, v in vals.items()}


def conj_args(n, a):
    names = flavio.Observable[n].arguments
    if names == ['phi']:
        return (-a[0],)
    if names == ['phimin', 'phimax']:
        return (-a[1], -a[0])
    if names and names[0] == 'CeFFij':
        return (a[0], a[1], -a[2], -a[3])
    return a


def models(size):
    out = {}
    for eft, basis, scale in (('WET', 'flavio', 4.8), ('SMEFT', 'Warsaw', 91.1876)):
        vals = phys.wc_values(eft, basis, size=size if eft == 'WET' else size * 1e-7)
        A = flavio.WilsonCoefficients()
        A.set_initial(vals, scale, eft, basis)
        B = flavio.WilsonCoefficients()
        B.set_initial(conj_wc(vals), scale, eft, basis)
        if eft == 'SMEFT':      # the SM parameters used in the running
            d = 1.2
            A.set_option('parameters', {'delta': d})
            B.set_option('parameters', {'delta': -d})
        out[eft] = (A, B)
    return out


def run(c):
    imp = flavio.config['implementation']
    # the interpolated implementations are only approximately CP symmetric (different grids)
    for k in list(imp):
        if 'spectator scattering' in k:
            imp[k] = imp[k].replace(' interpolated', '')
    from flavio.classes import AuxiliaryQuantity
    orig = AuxiliaryQuantity.prediction
    memo = {}

    def prediction(self, par_dict, wc_obj, *args, **kw):
        if 'spectator' not in self.name:
            return orig(self, par_dict, wc_obj, *args, **kw)
        key = (self.name, frozenset(par_dict.items()), id(wc_obj), args, frozenset(kw.items()))
        if key not in memo:
            memo[key] = orig(self, par_dict, wc_obj, *args, **kw)
        return dict(memo[key]) if isinstance(memo[key], dict) else memo[key]
    AuxiliaryQuantity.prediction = prediction

    P = flavio.default_parameters.get_central_all()
    Pc = conjugate_par(P)
    P0 = dict(P, gamma=1e-9)      # (zero itself is singular in ckmutil)
    sm = flavio.WilsonCoefficients()
    sizes = (1e-3, 2e-2) if c.thorough else (2e-3,)
    M = {s: models(s) for s in sizes}
    # observables at low q2 from the same decay together: they share the memo
    items = {}
    for name, args in phys.instances():
        if ONESIDED.search(name):
            continue
        low = re.search(r'\((B|Bs)[0+]?->(K\*0?|phi|rho|omega)(ee|mumu|ll|tautau)', name.replace('mue', 'll'))
        if args and len(args) == 1 and not c.thorough and args not in QUICK_Q2 and args != (0.3,) and args != (.1,) and args[0] != 161.3:
            continue
        if not c.thorough and name == 'BR_LHCb(Bs->K*0mumu)':
            continue
        if len(args) == 2 and args[0] in (0.05, 1.) and low:
            continue        # (numerical integration of the slow QCDF code)
        g = (re.sub(r'.*\(', '', name), args) if low else (name, args)
        items.setdefault(g, []).append((name, args))
    groups = sorted(items.values(), key=lambda l: (-len(l), l))

    def ev(p, w, n, a):
        try:
            return float(flavio.Observable[n].prediction_par(p, w, *a))
        except Exception as e:
            return mc.exc_text(e)

    def one(cc, group):
        memo.clear()
        for n, a in group:
            key = '%s%r' % (n, a)
            odd = bool(ODD.search(n))
            pts = [('SM', sm, sm)]
            for s in sizes:
                A, B = M[s]['WET']
                pts.append(('NP%g' % s, A, B))
            for tag, A, B in pts:
                x = ev(P, A, n, a)
                if isinstance(x, str) and ('WET to SMEFT' in x or 'math domain' in x):
                    A, B = M[sizes[0]]['SMEFT']
                    tag += '-SMEFT'
                    x = ev(P, A, n, a)
                y = ev(Pc, B, n, conj_args(n, a))
                cc.state()
                cc.trace(2)
                if isinstance(x, str) or isinstance(y, str):
                    if isinstance(x, str) and isinstance(y, str):
                        cc.extra['raising_both'] = cc.extra.get('raising_both', 0) + 1
                        continue
                    cc.fail(key + '/' + tag, 'only one of the CP-conjugate models raises: %r, %r' % (x, y), observable=n, args=a)
                    continue
                z = -y if odd else y
                tol = 5e-3 if APPROX.search(n) else 1e-4 if 'SMEFT' in tag else 1e-6
                cc.expect(abs(x - z) <= tol * max(abs(x), abs(z)) + 1e-300, key + '/' + tag,
                          'CP-%s observable: %r, in the CP-conjugate model %r' % ('odd' if odd else 'even', x, y), observable=n, args=a, model=tag)
                if odd and tag == 'SM':
                    cc.extra['odd'] = cc.extra.get('odd', 0) + 1
                    v = ev(P0, A, n, a)
                    cc.state()
                    cc.expect(not isinstance(v, str) and abs(v) <= 1e-7 * abs(x) + 1e-15, key + '/no phase',
                              'CP-odd observable without CP-odd phase: %r' % (v,), observable=n, args=a)
    slow = ('a_mu', 'a_e', 'a_tau', 'd_n', 'R(', 'BR(tau', 'BR(J', 'BR(U', 'BR(psi', 'FL', 'AFBtot', 'I3')
    groups.sort(key=lambda g: not g[0][0].startswith(slow))
    mc.parallel(c, one, groups, chunk=1)
    c.sample('ACP(B0->K*ee)(15.0,): a -> -a; BR(Bs->mumu): a -> a')
