"""C31: isospin partners.

Exchanging the light spectator quark (u <-> d) relates the decays of the
charged and the neutral member of an isospin multiplet by Clebsch-Gordan
coefficients, at parameters for which the members of each multiplet have the
same mass, lifetime, decay constants and subleading effects."""
import re, math
import mc, phys, semilep
import flavio

# points at which the contributions of these coefficients are much larger than the effects of the spectator quark
DOMINATED = ('C7, C9, C10', 'scalars')
LEP = r'(?:e|mu|tau|l)'
PAIRS = [('B0', 'B+'), ('D0', 'D+'), ('KL', 'K+'), ('KS', 'KL')]
# spectator effects and power corrections that are not isospin symmetric even for symmetric parameters
TOL_RATE, TOL_ASYM = 5e-3, .02


def symmetric(P):
    """parameters with exact isospin symmetry"""
    P = dict(P)
    for k in list(P):
        k2 = re.sub(r'(B|K\*|K|pi|rho|D\*|D)\+', lambda m: m.group(1) + '0', k)
        if k2 != k and k2 in P:
            P[k2] = P[k]
    for k in ('m_', 'tau_'):
        for x in ('KL', 'KS', 'K0'):
            if k + x in P:
                P[k + x] = P[k + 'K+']
    P['K->pi delta_K+pi0'] = 0.
    for k in P:
        if k.endswith('delta_EM'):
            P[k] = 0.
    P['m_d'] = P['m_u']
    return P


def weight(n):
    """relative weight of the final state: the neutral pion and rho are (uubar-ddbar)/sqrt(2)"""
    m = re.search(r'\((B0|B\+|D0|D\+|KL|K\+)->(pi|rho)([^)]*)\)', n)
    if not m:
        return 1.
    ini, M, rest = m.groups()
    charged_current = re.fullmatch(LEP + 'nu', rest)
    neutral_meson = (ini in ('B+', 'D+', 'K+')) if charged_current else (ini in ('B0', 'D0'))
    return .5 if neutral_meson else 1.


# decays that are not sensitive to the spectator quark
EXACT = re.compile(r'->[\w*]*?(?:nunu|(?:e|mu|tau|l)nu|emu|mue|etau|taue|mutau|taumu)\)?$|,')
RATE = re.compile(r'^(<dBR\w*/dq2>|<BR\w*>(?!/)|d?BR\w*(/d\w+)?\((?!.*\)/)|<BR>/<\w+>)')


def pairs():
    inst = flavio.Observable.instances
    out = []
    for n in inst:
        for a, b in PAIRS:
            if '(%s->' % a in n and 'pinunu' not in n and not (a == 'KS' and not re.search(LEP + 'nu', n)):
                m = n.replace('(%s->' % a, '(%s->' % b)
                if m in inst:
                    out.append((n, m))
    return out


def points(thorough):
    out = dict(semilep.points())
    def mk(d):
        w = flavio.WilsonCoefficients()
        w.set_initial(d, 4.8)
        return w
    Q = ('bs', 'bd')
    out['C7, C9, C10'] = mk(
        {'C9_%s%s%s' % (q, l, l): 30. + 12j for q in Q for l in ('e', 'mu', 'tau')}
        | {'C10_%s%s%s' % (q, l, l): -25. + 3j for q in Q for l in ('e', 'mu', 'tau')}
        | {'C10p_%s%s%s' % (q, l, l): 14. - 11j for q in Q for l in ('e', 'mu', 'tau')}
        | {'C7p_bs': 4. + 3j, 'C7p_bd': 4 - 1j, 'C7_bs': 3. - 2j, 'C7_bd': 3 + 2j})
    out['scalars'] = mk({k + '_%s%s%s' % (q, l, l): s * (1 + .2 * i) * (1.2 if q == 'bd' else 1) for q in Q for i, l in enumerate(('e', 'mu', 'tau'))
                         for k, s in {'C9': -20. + 9j, 'C10': 15. + 11j, 'C9p': 6j, 'CS': 4. + 1j, 'CP': 3j, 'CSp': -1. + 2j, 'CPp': 2.}.items()}
                        | {'C7p_bs': -3. + 3j, 'C7p_bd': 1 - 4j})
    for i, sg in ((0, 1), (1, -1)) if thorough else ((0, 1),):
        d = {}
        for q in Q:
            for j, ll in enumerate(('emu', 'mue', 'etau', 'taue', 'mutau', 'taumu')):
                for k, v in {'C9': 1. + .3j, 'C10': .5 - .7j, 'C9p': -.4 + .2j, 'C10p': .3, 'CS': .02 + .01j, 'CP': .03j, 'CSp': -.01, 'CPp': .015}.items():
                    d['%s_%s%s' % (k, q, ll)] = sg * v * (1 + .2 * j) * (.8 if q == 'bd' else 1)
        out['LFV%d' % i] = mk(d)
    if thorough:                # every coefficient of the charged currents, the neutrino modes and the LFV modes by itself
        for s in phys.WET_SECTORS_SL:
            for k, v in phys.wc_values('WET', 'flavio', sectors=[s], size=.4).items():
                t = k.split('_', 1)[1]
                lfv = bool(re.fullmatch(r'b[sd](emu|mue|etau|taue|mutau|taumu)', t))
                if lfv or 'nu' in t:
                    out[('LFV ' if lfv else '') + k] = mk({k: v})
    return out


def partners(c, P):
    W = points(c.thorough)
    todo = pairs()
    c.expect(len(todo) > 400, 'pairs', 'only %d pairs of isospin partners among the observables' % len(todo))
    inst = flavio.Observable.instances

    def one(cc, pr):
        a, b = pr
        oa, ob = inst[a], inst[b]
        if not cc.expect(tuple(oa.arguments or ()) == tuple(ob.arguments or ()), a + '/arguments', 'isospin partners %s and %s have different arguments' % pr):
            return
        rate = bool(RATE.match(a))
        exact = bool(EXACT.search(a))
        w = weight(a) / weight(b) if rate else 1.
        worst = 0.
        for args in phys.arg_grid(oa):
            for tag, wc in W.items():
                if tag.startswith('LFV') != bool(re.search(r'(emu|mue|etau|taue|mutau|taumu)\)', a)):
                    continue
                if not exact and tag not in DOMINATED:
                    continue
                if exact and tag in DOMINATED:
                    continue
                w0 = wc if wc is not None else flavio.WilsonCoefficients()
                try:
                    x = oa.prediction_par(P, w0, *args)
                    y = ob.prediction_par(P, w0, *args)
                except Exception as e:
                    cc.expect(False, '%s%r/%s/evaluates' % (a, args, tag), '%s or %s cannot be evaluated: %s' % (a, b, mc.exc_text(e)))
                    continue
                cc.state(); cc.trace(2)
                if rate:
                    tol = 1e-7 if exact else TOL_RATE
                    d = abs(x - w * y) / max(abs(x), abs(w * y), 1e-300)
                else:
                    tol = 1e-7 if exact else TOL_ASYM
                    d = abs(x - y)
                worst = max(worst, d / tol)
                cc.expect(d <= tol, '%s%r/%s' % (a, args, tag),
                          '%s%r = %.8g, but its isospin partner %s%s = %.8g at isospin-symmetric parameters, Wilson coefficients %s (difference %.3g)' % (
                              a, args, x, b, '' if w == 1 else ' times %g' % w, w * y, tag, d), observable=a, args=args)
        cc.sample('%s / %s: expected ratio %g, largest deviation %.2g of the tolerance' % (a, b, w, worst))
    mc.parallel(c, one, todo, chunk=3)


def grossman_nir(c):
    """|A(KL->pi0 nu nu)| <= |A(K+->pi+ nu nu)|, decided for all values of the Wilson coefficients by the quadratic forms"""
    import c18
    par = flavio.default_parameters.get_central_all()
    frame = c18.Frame('WET', 2., par)
    names = ['BR(K+->pinunu)', 'BR(KL->pinunu)']
    f = c18.evaluate(names, (), frame, times=False)
    var = frame.variables(f)
    c.expect(len(var) >= 36, 'GN/coefficients', 'K+->pinunu only depends on %d real coefficients' % len(var))
    M, err = c18.forms(f, var, c)
    c.expect(err < 1e-8, 'GN/quadratic', 'K->pinunu branching ratios are not of second order in the Wilson coefficients: %.3g' % err)
    r = par['kappa_L_tilde'] / par['kappa_plus_tilde']
    e, x = c18.mineig(M[0] * r - M[1], M[0] * r)
    c.expect(e > -1e-8, 'GN/bound', 'BR(KL->pinunu) larger than the Grossman-Nir bound for some Wilson coefficients (eigenvalue %.4g): %s' % (
        e, {'%s*%s' % v: round(float(y / (x[0] or 1)), 3) for v, y in zip(var, x[1:]) if abs(y / (x[0] or 1)) > .05}))
    # the bound can be reached
    e2, _ = c18.mineig(M[0] * r * .999 - M[1], M[0] * r)
    c.expect(e2 < 0, 'GN/reached', 'the Grossman-Nir bound is not reached by any Wilson coefficients (eigenvalue %.4g)' % e2)
    c.sample('Grossman-Nir bound: %d real parameters, smallest eigenvalue %.2g' % (len(var), e))


def run(c):
    P = symmetric(flavio.default_parameters.get_central_all())
    partners(c, P)
    grossman_nir(c)
