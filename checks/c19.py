"""C19: observables that are defined in terms of other observables agree with them.

A table of several thousand exact relations between registered observables
(ratios, sums and averages over leptons, polarisation fractions, angular
distributions, optimised observables, Z pole, Higgs, meson mixing, ...) is
generated from the registry and evaluated at every Wilson coefficient point.
Everything is computed through the public API; the relations are written down
here from the definitions of the observables."""
import re, math
import mc, phys, semilep
import flavio
from math import sqrt, pi, cos, sin, tan, log
from wilson import wcxf

REL = {}


def wpoints(c):
    pts = semilep.points()
    def wet(C):
        w = flavio.WilsonCoefficients()
        w.set_initial(C, 4.8)
        return w
    V = {}
    for i, l in enumerate(('ee', 'mumu', 'tautau')):
        for q in ('bs', 'bd'):
            f = 1 + .3 * i
            V.update({'C9_' + q + l: f * (-1 + .5j), 'C10_' + q + l: f * (.7 - .3j), 'C9p_' + q + l: f * (.5 + .2j), 'C10p_' + q + l: f * (.2 - .3j)})
    V.update({'C7_bs': .05 + .1j, 'C7p_bs': .1j, 'C8_bs': -.1 + .05j, 'C7_bd': .03 + .1j})
    pts['vector'] = wet(V)
    # everything, including lepton flavour violation and Delta F=2
    sec = {k: s for s, ks in wcxf.Basis['WET', 'flavio'].sectors.items() for k in ks}
    norm = {'sbsb': 1e-10, 'dbdb': 1e-11, 'sdsd': 1e-14, 'cucu': 1e-13, 'nunumue': 1e-7, 'nunuemu': 1e-7}
    for tag, sg in (('generic', 1), ('generic-', -1)):
        pts[tag] = wet({k: v * norm.get(sec[k], .1 if sec[k] in phys.WET_SECTORS_SL else 1e-6)
                        for k, v in phys.wc_values('WET', 'flavio', size=1., sign=sg).items()})
    for tag, sg in (('SMEFT', 1), ('SMEFT-', -1)):
        w = flavio.WilsonCoefficients()
        w.set_initial(phys.wc_values('SMEFT', 'Warsaw', size=2e-9, sign=sg), 91.1876, 'SMEFT', 'Warsaw')
        pts[tag] = w
    return pts


class Eval:
    def __init__(self, wc):
        self.wc = wc
        self.memo = {}
        self.par = flavio.default_parameters.get_central_all()

    def __call__(self, n, *a):
        k = (n,) + a
        if k not in self.memo:
            self.memo[k] = semilep.value(n, self.wc, *a)
        return self.memo[k]


# -------------------------------------------------------------- the relations
def relations(thorough):
    """[(group, key, lhs, rhs, rel. tolerance, points)]: lhs, rhs functions of the evaluator"""
    R = []
    O = flavio.Observable.instances
    ANY, WET, EW = None, ('SM', 'A', 'B', 'vector', 'generic', 'generic-'), ('SM', 'SMEFT', 'SMEFT-')

    def rel(group, key, lhs, rhs, tol=1e-9, pts=WET, abstol=0.):
        R.append((group, key, lhs, rhs, tol, pts, abstol))

    def q2s(proc, n=4):
        r = semilep.region(proc)
        if r is None:
            return []
        lo, hi, tail = r
        hi = 22. if hi is None else hi
        if tail in ('ll', 'lnu'):
            lo = max(lo, semilep.PAR['m_mu']**2 * (4 if tail == 'll' else 1))
        return [lo + (hi - lo) * f for f in ((.06, .3, .7, .95) if n == 4 else (.1, .7))]

    L1, L2 = {'e': 'e', 'mu': 'mu', 'tau': 'tau'}, None
    # sums over the two charge assignments of lepton flavour violating decays
    for n, o in O.items():
        m = re.match(r'^(.*->.*?)((?:e|mu|tau)+),((?:e|mu|tau)+)\)$', n)
        if m and m.group(2) != m.group(3):
            a, b = '%s%s)' % m.group(1, 2), '%s%s)' % m.group(1, 3)
            args = phys.arg_grid(o)[0]
            if a in O and b in O:
                rel('LFV sum', n, lambda E, n=n, args=args: E(n, *args), lambda E, a=a, b=b, args=args: E(a, *args) + E(b, *args))
            other = '%s%s,%s)' % m.group(1, 3, 2)
            if other in O:
                rel('LFV sum', n + ' order', lambda E, n=n, args=args: E(n, *args), lambda E, n=other, args=args: E(n, *args))

    # e/mu averages
    for n, o in O.items():
        m = re.match(r'^(BR|BR_L|BR_T|dBR/dq2|dBR_L/dq2|dBR_T/dq2|dBR/dcl|dBR/dcV|dBR/dphi|<BR>/<cl>|<BR>/<cV>|<BR>/<phi>|lnC|RT|g1/f1|AFBtot)\((.*->.*)(lnu|ll)\)$', n)
        if not m:
            continue
        fam, p, t = m.groups()
        e, mu = ['%s(%s%s)' % (fam, p, t.replace('l', l) if t == 'lnu' else l + l) for l in ('e', 'mu')]
        if e not in O or mu not in O:
            continue
        proc = '(%s%s)' % (p, t)
        argl = [()] if not o.arguments else [(x,) for x in q2s(proc)] if tuple(o.arguments) == ('q2',) else phys.arg_grid(o)
        if fam == 'AFBtot':
            B = lambda l: 'BR(%s%snu)' % (p, l)
            rel('e/mu average', n, lambda E, n=n: E(n), lambda E, e=e, mu=mu, p=p: (E(e) * E('BR(%senu)' % p) + E(mu) * E('BR(%smunu)' % p))
                / (E('BR(%senu)' % p) + E('BR(%smunu)' % p)), 1e-4)
            continue
        for a in argl:
            rel('e/mu average', '%s%r' % (n, a), lambda E, n=n, a=a: E(n, *a), lambda E, e=e, mu=mu, a=a: (E(e, *a) + E(mu, *a)) / 2, 1e-5 if 'BR' in fam else 1e-9, WET if fam != 'lnC' else ('SM', 'A', 'B', 'vector'))

    # ratios of leptons
    charged = {'B->D*': ('B0->D*', 'B+->D*'), 'B->rho': ('B0->rho', 'B+->rho'), 'B->D': ('B0->D', 'B+->D'), 'B->pi': ('B0->pi', 'B+->pi'),
               'D->K': ('D+->K', 'D0->K'), 'D->pi': ('D+->pi', 'D0->pi')}
    for n, o in O.items():
        m = re.match(r'^(<)?R(mue|taul|taumu|taue)(?:>)?\((.*->)(.*?)(lnu|ll)\)$', n)
        if not m:
            continue
        bin_, r, ini, fin, t = m.groups()
        num, den = {'mue': ('mu', 'e'), 'taul': ('tau', 'l'), 'taumu': ('tau', 'mu'), 'taue': ('tau', 'e')}[r]
        if ini == 'W->':
            continue
        p = ini + fin
        srcs = charged.get(p, (p,))
        f = lambda l, t=t: (l + 'nu' if t == 'lnu' else l + l)
        args = tuple(o.arguments or ())
        if args == ('q2min', 'q2max'):
            r0 = semilep.region('(%s%s)' % (srcs[0], f(num)))
            hi = 20. if r0[1] is None else r0[1]
            argl = [(r0[0] + .2 * (hi - r0[0]), r0[0] + .6 * (hi - r0[0]))]
            fam = ('<BR>(%s%s)', '<dBR/dq2>(%s%s)')
        elif args == ('q2',):
            argl = [(x,) for x in q2s('(%s%s)' % (srcs[0], f(num)))]
            fam = ('dBR/dq2(%s%s)',)
        else:
            argl, fam = [()], ('BR(%s%s)',)
        fam = [x for x in fam if x % (srcs[0], f(num)) in O and x % (srcs[0], f(den)) in O]
        if not fam:
            continue
        for a in argl:
            # isospin averaged ratios: average of the rates over the two charges, weighted in any way
            lo = lambda E, a=a, F=fam[0], srcs=srcs, num=num, den=den, f=f: [E(F % (s, f(num)), *a) / E(F % (s, f(den)), *a) for s in srcs]
            rel('lepton ratio', '%s%r' % (n, a), lambda E, n=n, a=a: E(n, *a),
                (lambda E, lo=lo, n=n, a=a: min(max(E(n, *a), min(lo(E))), max(lo(E)))),      # between the ratios of the two charges
                5e-3 if args == ('q2min', 'q2max') else 1e-5)
    # polarisation
    for n, o in O.items():
        m = re.match(r'^dBR_L/dq2(\(.*\))$', n)
        if m:
            p = m.group(1)
            for q in q2s(p):
                rel('polarisation', 'dBR(L+T)%s at %.4g' % (p, q), lambda E, p=p, q=q: E('dBR/dq2' + p, q), lambda E, p=p, q=q: E('dBR_L/dq2' + p, q) + E('dBR_T/dq2' + p, q))
                rel('polarisation', 'FL%s at %.4g' % (p, q), lambda E, p=p, q=q: E('FL' + p, q), lambda E, p=p, q=q: E('dBR_L/dq2' + p, q) / E('dBR/dq2' + p, q))
            rel('polarisation', 'BR(L+T)' + p, lambda E, p=p: E('BR' + p), lambda E, p=p: E('BR_L' + p) + E('BR_T' + p), 1e-3)
            rel('polarisation', 'FLtot' + p, lambda E, p=p: E('FLtot' + p), lambda E, p=p: E('BR_L' + p) / E('BR' + p))
            # distributions in the angles
            for x in (-.8, .1, .6):
                rel('angles', 'dBR/dcV%s at %g' % (p, x), lambda E, p=p, x=x: E('dBR/dcV' + p, x),
                    lambda E, p=p, x=x: 1.5 * E('BR_L' + p) * x * x + .75 * E('BR_T' + p) * (1 - x * x), 1e-3)
            rel('angles', 'AFB' + p, lambda E, p=p: E('AFBtot' + p), lambda E, p=p: (E('<BR>/<cl>' + p, 0, 1) - E('<BR>/<cl>' + p, -1, 0)) / E('BR' + p), 1e-3, abstol=1e-6)
            rel('angles', 'cl shape' + p, lambda E, p=p: E('dBR/dcl' + p, .5) - E('dBR/dcl' + p, -.5), lambda E, p=p: E('AFBtot' + p) * E('BR' + p), 1e-3, abstol=1e-12)
            rel('angles', 'cl norm' + p, lambda E, p=p: (E('dBR/dcl' + p, 1) + E('dBR/dcl' + p, -1) + 4 * E('dBR/dcl' + p, 0)) / 3, lambda E, p=p: E('BR' + p), 1e-3)
            rel('angles', 'I3' + p, lambda E, p=p: E('I3tot' + p), lambda E, p=p: pi * (E('dBR/dphi' + p, 0) - E('dBR/dphi' + p, pi / 2)) / E('BR' + p), 1e-3, abstol=1e-6)
            rel('angles', 'phi norm' + p, lambda E, p=p: E('dBR/dphi' + p, .4) + E('dBR/dphi' + p, .4 + pi / 2), lambda E, p=p: E('BR' + p) / pi, 1e-3)
            for fam, lo, hi in (('cl', -1, 1), ('cV', -1, 1), ('phi', 0, 2 * pi), ('phi', -pi, pi)):
                rel('angles', '<BR>/<%s>%s full' % (fam, p), lambda E, p=p, fam=fam, lo=lo, hi=hi: E('<BR>/<%s>%s' % (fam, p), lo, hi), lambda E, p=p: E('BR' + p), 1e-3)
            if p.endswith('enu)'):
                rel('angles', 'FLt(massless)' + p, lambda E, p=p: E('FLttot' + p), lambda E, p=p: E('FLtot' + p), 1e-3, ('SM', 'vector'))
        m = re.match(r'^<BR_L>(\(.*\))$', n)
        if m:
            p = m.group(1)
            r = semilep.region(p)
            a = (r[0] + .1 * (r[1] - r[0]), r[0] + .7 * (r[1] - r[0]))
            rel('polarisation', '<BR>(L+T)%s' % p, lambda E, p=p, a=a: E('<BR>' + p, *a), lambda E, p=p, a=a: E('<BR_L>' + p, *a) + E('<BR_T>' + p, *a), 1e-3)
            rel('polarisation', '<FL>%s' % p, lambda E, p=p, a=a: E('<FL>' + p, *a), lambda E, p=p, a=a: E('<BR_L>' + p, *a) / E('<BR>' + p, *a), 1e-3)
        # normalised bins
        m = re.match(r'^<BR>/BR(\(B->(D\*?)taunu\))$', n)
        if m:
            src = ['%s->%staunu' % (b, m.group(2)) for b in ('B0', 'B+')]
            for a in ((4., 6.), (3., 11.)):
                lo = lambda E, a=a, src=src: [E('<BR>(%s)' % s, *a) / E('BR(%s)' % s) for s in src]
                rel('normalised bin', '%s%r' % (n, a), lambda E, n=n, a=a: E(n, *a), lambda E, lo=lo, n=n, a=a: min(max(E(n, *a), min(lo(E))), max(lo(E))), 5e-3)

    # optimised observables of B->K*ee (massless leptons, no scalars and tensors)
    for B in ('B0', 'B+'):
        p = '(%s->K*ee)' % B
        for q in q2s(p):
            a = (q,)
            s = lambda x, k, a=a, p=p: (lambda E: k * E(x + p, *a) / (1 - E('FL' + p, *a)))
            t = lambda x, a=a, p=p: (lambda E: E(x + p, *a) / sqrt(E('FL' + p, *a) * (1 - E('FL' + p, *a))))
            for P, f in (('P1', s('S3', 2)), ('P2', s('AFB', 2 / 3)), ('P3', s('S9', -1)), ('ATIm', s('A9', 2)), ('P4p', t('S4')), ('P5p', t('S5')),
                         ('P6p', t('S7')), ('P8p', t('S8'))):
                rel('optimised', '%s%s at %.4g' % (P, p, q), lambda E, P=P, p=p, q=q: E(P + p, q), f, 1e-4, ('SM', 'vector'), 1e-7)
    # for every lepton: the ratio of two P' is the ratio of the S
    for B in ('B0', 'B+'):
        for l in ('ee', 'mumu', 'tautau'):
            p = '(%s->K*%s)' % (B, l)
            for q in q2s(p):
                for (P, S), (P2, S2) in zip((('P4p', 'S4'), ('P5p', 'S5'), ('P6p', 'S7')), (('P5p', 'S5'), ('P6p', 'S7'), ('P8p', 'S8'))):
                    rel('optimised', '%s/%s%s at %.4g' % (P, P2, p, q), lambda E, P=P, S2=S2, p=p, q=q: E(P + p, q) * E(S2 + p, q),
                        lambda E, P2=P2, S=S, p=p, q=q: E(P2 + p, q) * E(S + p, q), 1e-8, abstol=1e-14)
                for (P, S, k), (P2, S2, k2) in zip((('P1', 'S3', 2), ('P2', 'AFB', 2 / 3), ('P3', 'S9', -1)), (('P2', 'AFB', 2 / 3), ('P3', 'S9', -1), ('ATIm', 'A9', 2))):
                    rel('optimised', '%s/%s%s at %.4g' % (P, P2, p, q), lambda E, P=P, S2=S2, k2=k2, p=p, q=q: E(P + p, q) * E(S2 + p, q) * k2,
                        lambda E, P2=P2, S=S, k=k, p=p, q=q: E(P2 + p, q) * E(S + p, q) * k, 1e-8, abstol=1e-14)
    # differences of muons and electrons
    for n, o in O.items():
        m = re.match(r'^(<?)Dmue_(.*?)(>?)\((.*)ll\)$', n)
        if m:
            a_, X, b_, p = m.groups()
            for a in ([(.5,), (3.,), (16.,)] if not a_ else [(1.1, 6.), (15., 19.)]):
                rel('Dmue', '%s%r' % (n, a), lambda E, n=n, a=a: E(n, *a), lambda E, X=a_ + X + b_, p=p, a=a: E('%s(%smumu)' % (X, p), *a) - E('%s(%see)' % (X, p), *a), 1e-9, abstol=1e-12)
    # Lambdab->Lambda(1520)
    for l in ('ee', 'mumu'):
        p = '(Lambdab->Lambda(1520)%s)' % l
        for q in (.3, 2., 6., 16.):
            S = lambda E, x, p=p, q=q: E('S_%s%s' % (x, p), q)
            rel('Lambdab', 'norm%s at %g' % (p, q), lambda E, S=S: S(E, '1cc') + 2 * S(E, '1ss') + 2 * S(E, '2cc') + 4 * S(E, '2ss') + 2 * S(E, '3ss'), lambda E: 3.)
            rel('Lambdab', 'FL%s at %g' % (p, q), lambda E, p=p, q=q: E('FL' + p, q),
                lambda E, S=S: (-S(E, '1cc') + 2 * S(E, '1ss') - 2 * S(E, '2cc') + 4 * S(E, '2ss') + 2 * S(E, '3ss')) / 3)
            rel('Lambdab', 'AFBl%s at %g' % (p, q), lambda E, p=p, q=q: E('AFBl' + p, q), lambda E, S=S: (S(E, '1c') + 2 * S(E, '2c')) / 2, abstol=1e-12)

    # leptonic decays
    rel('leptonic', 'Remu(K+->lnu)', lambda E: E('Remu(K+->lnu)'), lambda E: E('BR(K+->enu)') / E('BR(K+->munu)'), 1e-3)     # (resummed logarithms are included in the ratios only)
    for l in ('e', 'mu'):
        rel('leptonic', 'RKpi ' + l, lambda E, l=l: E('RKpi(P+->%snu)' % l) * E('Gamma(pi+->munu)') * (E('BR(pi+->enu)') if l == 'e' else 1),
            lambda E, l=l: E('BR(K+->%snu)' % l) / E.par['tau_K+'], 1e-3)
    for B in ('Bs',):
        y = lambda E: E.par['DeltaGamma/Gamma_Bs'] / 2
        for l in ('e', 'mu', 'tau'):
            A = lambda E, l=l: E('ADeltaGamma(Bs->%s%s)' % (l, l))
            # tau_eff = int t <Gamma(t)> / int <Gamma(t)>
            def te(E, A=A):
                a, g, yy = A(E), 1 / E.par['tau_Bs'], y(E)
                gl, gh = g * (1 + yy), g * (1 - yy)
                return ((1 - a) / gl**2 + (1 + a) / gh**2) / ((1 - a) / gl + (1 + a) / gh)
            rel('leptonic', 'effective lifetime ' + l, lambda E, l=l: E('tau_%s%s' % (l, l)), te)
    # J/psi etc.
    for n, o in O.items():
        m = re.match(r'^R\((J/psi|psi\(2S\)|Upsilon\(\dS\))->(.*)\)$', n)
        if m and not o.arguments:
            V, f = m.groups()
            for den in ('ee', 'mumu'):
                pass
            if 'BR(%s->%s)' % (V, f) in O and 'BR(%s->ee)' % V in O:
                rel('quarkonium', n, lambda E, n=n, V=V: E(n) * E('BR(%s->ee)' % V), lambda E, V=V, f=f: E('BR(%s->%s)' % (V, f)))

    # radiative decays
    rel('radiative', 'K*gamma/phigamma', lambda E: E('BR(B0->K*gamma)/BR(Bs->phigamma)'), lambda E: E('BR(B0->K*gamma)') / E('BR(Bs->phigamma)'))
    # Z pole
    lep = ('e', 'mu', 'tau')
    G = lambda E, f: E('Gamma(Z->%s)' % (f + f))
    MZ = lambda E: E.par['m_Z']
    rel('Z', 'Gamma(had) from R_l', lambda E: E('R_l') * sum(G(E, l) for l in lep) / 3, lambda E: E('R_e') * G(E, 'e'), pts=EW)
    for l in ('mu', 'tau'):
        rel('Z', 'R_' + l, lambda E, l=l: E('R_' + l) * G(E, l), lambda E: E('R_e') * G(E, 'e'), pts=EW)
    for q in 'ucdsb':
        rel('Z', 'R_' + q, lambda E, q=q: E('R_' + q) * E('R_e') * G(E, 'e'), lambda E, q=q: G(E, q), pts=EW)
    rel('Z', 'R_uc', lambda E: E('R_uc'), lambda E: (E('R_u') + E('R_c')) / 2, pts=EW)
    rel('Z', 'GammaZ', lambda E: E('GammaZ'), lambda E: E('R_e') * G(E, 'e') + sum(G(E, l) for l in lep) + 3 * E('Gamma(Z->nunu)'), pts=EW)
    rel('Z', 'hadronic width', lambda E: sum(G(E, q) for q in 'ucdsb'), lambda E: E('R_e') * G(E, 'e'), pts=('SM',))
    rel('Z', 'sigma_had', lambda E: E('sigma_had') * E('GammaZ')**2 * MZ(E)**2, lambda E: 12 * pi * G(E, 'e') * E('R_e') * G(E, 'e'), pts=EW)
    for f in lep + tuple('ucdsb'):
        rel('Z', 'AFB ' + f, lambda E, f=f: E('AFB(Z->%s)' % (f + f)), lambda E, f=f: .75 * E('A(Z->ee)') * E('A(Z->%s)' % (f + f)), pts=EW)
    # W
    W = lambda E, l: E('BR(W->%snu)' % l)
    for a, b in (('tau', 'e'), ('mu', 'e'), ('tau', 'mu')):
        rel('W', 'R' + a + b, lambda E, a=a, b=b: E('R%s%s(W->lnu)' % (a, b)), lambda E, a=a, b=b: W(E, a) / W(E, b), pts=EW)
    # Higgs: narrow width
    prod = ('gg', 'VBF', 'Wh', 'Zh', 'Vh', 'tth')
    dec = [m.group(1) for m in (re.match(r'^mu_gg\(h->(.*)\)$', n) for n in O) if m]
    for p in prod:
        for d in dec:
            rel('Higgs', 'mu_%s(%s)' % (p, d), lambda E, p=p, d=d: E('mu_%s(h->%s)' % (p, d)) * E('mu_gg(h->bb)'),
                lambda E, p=p, d=d: E('mu_%s(h->bb)' % p) * E('mu_gg(h->%s)' % d), pts=EW)
    for d in dec:
        rel('Higgs', 'Vh between Wh and Zh ' + d, lambda E, d=d: E('mu_Vh(h->%s)' % d), lambda E, d=d: min(max(E('mu_Vh(h->%s)' % d), min(E('mu_Wh(h->%s)' % d), E('mu_Zh(h->%s)' % d))),
                                                                                                    max(E('mu_Wh(h->%s)' % d), E('mu_Zh(h->%s)' % d))), pts=EW)
    rel('Higgs', 'VV between WW and ZZ', lambda E: E('mu_gg(h->VV)'), lambda E: min(max(E('mu_gg(h->VV)'), min(E('mu_gg(h->WW)'), E('mu_gg(h->ZZ)'))),
                                                                                     max(E('mu_gg(h->WW)'), E('mu_gg(h->ZZ)'))), pts=EW)
    # meson mixing
    rel('mixing', 'DMd/DMs', lambda E: E('DeltaM_d/DeltaM_s'), lambda E: E('DeltaM_d') / E('DeltaM_s'))
    X, Y = lambda E: E('x12_D'), lambda E: E('y12_D')
    ph = lambda E: E('phi12_D')
    rel('mixing', 'x12Im', lambda E: E('x12Im_D'), lambda E: X(E) * sin(ph(E)))
    rel('mixing', 'x2-y2', lambda E: E('x_D')**2 - E('y_D')**2, lambda E: X(E)**2 - Y(E)**2, 1e-9, abstol=1e-15)
    rel('mixing', 'xy', lambda E: abs(E('x_D') * E('y_D')), lambda E: abs(X(E) * Y(E) * cos(ph(E))), 1e-9, abstol=1e-15)
    # |q/p|^2: (q/p)^2 = (M12* - i Gamma12*/2)/(M12 - i Gamma12/2)
    rel('mixing', '|q/p|', lambda E: E('q/p_D')**4, lambda E: (X(E)**2 + Y(E)**2 + 2 * X(E) * Y(E) * sin(ph(E))) / (X(E)**2 + Y(E)**2 - 2 * X(E) * Y(E) * sin(ph(E))))
    # neutron decay: correlation coefficients
    rel('neutron', 'lambdaAB', lambda E: E('lambdaAB_n', .1), lambda E: (lambda A, B: (A - B) / (A + B))(E('Atilde_n', .1), E('Btilde_n', .1)), pts=('SM',))
    return R


def run(c):
    pts = wpoints(c)
    use = list(pts) if c.thorough else [p for p in pts if p not in ('B', 'generic-', 'SMEFT-')]
    rels = relations(c.thorough)
    groups = {}
    for r in rels:
        # relations sharing a process are evaluated together (one memo)
        m = re.search(r'\([^ ]*->[^ ]*\)', r[1])
        g = (r[0], m.group(0) if m else '') if r[0] not in ('Higgs', 'Z') else (r[0], '')
        groups.setdefault(g, []).append(r)
    slow = ('angles', 'polarisation', 'lepton ratio', 'e/mu average', 'normalised bin')
    items = [(g, p) for g in groups for p in use if c.thorough or g[0] not in slow or p in ('A', 'vector')]
    items.sort(key=lambda x: x[0][0] not in slow)

    def one(cc, it):
        g, p = it
        E = Eval(pts[p])
        for grp, key, lhs, rhs, tol, rp, ab in groups[g]:
            if rp is not None and p not in rp:
                continue
            cc.state()
            try:
                a, b = lhs(E), rhs(E)
            except Exception as e:
                cc.fail('%s/%s/%s' % (grp, key, p), 'raises ' + mc.exc_text(e), relation=key, point=p)
                continue
            cc.trace(2)
            ok = abs(a - b) <= tol * max(abs(a), abs(b)) + ab
            cc.expect(ok, '%s/%s/%s' % (grp, key, p), '%s, Wilson coefficients "%s": %r, from its definition %r' % (key, p, a, b), relation=key, point=p)
            if a:
                cc.extra['nonzero'] = cc.extra.get('nonzero', 0) + 1
            cc.sample('%s @ %s' % (key, p))
    mc.parallel(c, one, items, chunk=2)
    c.extra['relations'] = len(rels)
    c.extra['points'] = use
