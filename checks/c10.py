"""C10: the Standard Model is the limit of vanishing new physics.

 * all observables x argument grid x all ways of writing down 'no new physics';
 * approach of the limit along directions in WC space: the deviation from the
   SM shrinks (at least) proportionally to the size of the coefficients;
 * decay rates without normalisation are quadratic polynomials along every
   direction not involving Delta F=2 (Hermitian form in the amplitudes; the
   time-integrated rates of Bs decays depend on the mixing phase)."""
import re
import mc, phys
import flavio
from wilson import Wilson

RATE = re.compile(r'^(<?d?BR(_L|_T)?(/dq2|/dcl|/dcV|/dphi)?>?(/<(cl|cV|phi)>)?|Gamma)\(')
Q2Q = {(0.5,), (6.,), (15.,), (0.3,), (0.1,), (161.3,)}


def evalu(n, w, a):
    try:
        return flavio.np_prediction(n, w, *a)
    except Exception as e:
        return mc.exc_text(e)


def run(c):
    zeros = {}
    zeros['WilsonCoefficients()'] = flavio.WilsonCoefficients()
    w = flavio.WilsonCoefficients()
    w.set_initial({}, 4.8)
    zeros['WilsonCoefficients({}, 4.8)'] = w
    w = flavio.WilsonCoefficients()
    w.set_initial({'C9_bsmumu': 0, 'CVLL_bsbs': 0j, 'CVL_bctaunutau': 0.}, 160)
    zeros['WilsonCoefficients(zeros, 160)'] = w
    w = flavio.WilsonCoefficients()
    w.set_initial({'G': 0, 'uphi_33': 0j, 'lq1_2223': 0.}, 1000, 'SMEFT', 'Warsaw')
    zeros['WilsonCoefficients(zeros, SMEFT)'] = w
    zeros['Wilson({}, SMEFT)'] = Wilson({}, 91.1876, 'SMEFT', 'Warsaw')
    zeros['Wilson(zeros, SMEFT)'] = Wilson({'lq1_2223': 0, 'phiD': 0}, 5000, 'SMEFT', 'Warsaw')
    w = flavio.WilsonCoefficients()
    w.set_initial({'lq1_2223': 1e-8, 'phiD': 1e-7}, 5000, 'SMEFT', 'Warsaw')
    w.set_initial({}, 5000, 'SMEFT', 'Warsaw')
    zeros['reset'] = w

    from wilson import wcxf
    sec = {k: s for s, ks in wcxf.Basis['WET', 'flavio'].sectors.items() for k in ks}
    # coefficients that are not normalised to the SM amplitude are given in GeV^-2
    norm = {'sbsb': 1e-9, 'dbdb': 1e-9, 'sdsd': 1e-12, 'cucu': 1e-12}

    def line(eft, basis, scale, sign, eps, df2=1):
        o = flavio.WilsonCoefficients()
        o.set_initial({k: v * eps * (norm[sec[k]] * df2 if sec[k] in norm else 1. if sec[k] in phys.WET_SECTORS_SL else 1e-6)
                       for k, v in phys.wc_values(eft, basis, size=1., sign=sign).items()}, scale, eft, basis)
        return o
    # G_F is normalised to muon decay
    norm['nunumue'] = norm['nunuemu'] = 1e-7
    EPS = [1e-6, 1e-7]
    dirs = [('WET', 'flavio', 4.8, 1)] + ([('WET', 'flavio', 4.8, -1)] if c.thorough else [])
    lines = {d: [line(*d, e) for e in EPS] for d in dirs}
    quad = {d: [line(*d, e, df2=0) for e in (-2e-3, -1e-3, 1e-3, 2e-3)] for d in dirs}

    items = []
    for name, args in phys.instances():
        if not c.thorough and len(args) == 1 and args not in Q2Q:
            continue
        if not c.thorough and len(args) == 2 and args[0] in (0.05,):
            continue
        items.append((name, args))

    def one(cc, it):
        n, a = it
        key = '%s%r' % (n, a)
        try:
            f0 = flavio.sm_prediction(n, *a)
        except Exception as e:
            f0 = mc.exc_text(e)
        first = a == phys.arg_grid(flavio.Observable[n])[0] or len(phys.arg_grid(flavio.Observable[n])) == 1
        for t, w in zeros.items():
            if not (cc.thorough or first or t in ('WilsonCoefficients(zeros, SMEFT)', 'WilsonCoefficients(zeros, 160)')):
                continue
            f = evalu(n, w, a)
            cc.state(); cc.trace()
            if isinstance(f, str) and not isinstance(f0, str) and ('WET to SMEFT' in f or 'to SMEFT' in f):
                cc.extra['needs_SMEFT'] = cc.extra.get('needs_SMEFT', 0) + 1
                continue
            ok = f == f0 if isinstance(f, str) or isinstance(f0, str) else abs(f - f0) <= 1e-12 * abs(f0) + 1e-300
            cc.expect(ok, key + '/zero/' + t, 'no new physics given as %s: %r, SM: %r' % (t, f, f0), observable=n, args=a)
        if isinstance(f0, str):
            return
        for d, (A, B) in lines.items():
            fa, fb = evalu(n, A, a), evalu(n, B, a)
            cc.state(2); cc.trace(2)
            if isinstance(fa, str) or isinstance(fb, str):
                bad = [x for x in (fa, fb) if isinstance(x, str) and 'to SMEFT' not in x]
                cc.expect(not bad, key + '/limit', 'small new physics raises: %r' % bad, observable=n, args=a)
                continue
            da, db = abs(fa - f0), abs(fb - f0)
            cc.expect(db <= .15 * da + 1e-9 * abs(f0) + 1e-300, key + '/limit',
                      'SM %r, NP of size %g: %r, of size %g: %r' % (f0, EPS[0], fa, EPS[1], fb), observable=n, args=a)
            if da > 1e-9 * abs(f0):
                cc.extra['sensitive'] = cc.extra.get('sensitive', 0) + 1
        if RATE.search(n) and n != 'BR(pi+->enu)':      # (normalised to pi->munu)
            for d, q in quad.items():
                v = [evalu(n, w, a) for w in q]
                cc.state(4); cc.trace(4)
                if any(isinstance(x, str) for x in v):
                    continue
                m2, m1, p1, p2 = v
                s = max(map(abs, v + [f0]))
                amp = max(abs(x - f0) for x in v)
                # (the q2 integration is adaptive, with limited accuracy)
                acc = 1e-9 if 'dBR/dq2(' in n or not ('nu)' in n and 'B' in n[n.index('('):]) else 2e-5
                # odd and even third/fourth differences vanish for a quadratic polynomial
                o3 = (p2 - m2) - 2 * (p1 - m1)
                e4 = (p2 + m2) - 4 * (p1 + m1) + 6 * f0
                cc.expect(abs(o3) <= 1e-4 * amp + acc * s and abs(e4) <= 1e-4 * amp + acc * s, key + '/quadratic',
                          'rate along a direction of WCs (-2,-1,0,1,2): %r: not a quadratic polynomial (%.1e, %.1e of the variation)' % (
                              [m2, m1, f0, p1, p2], o3 / (amp or 1), e4 / (amp or 1)), observable=n, args=a)
                cc.extra['rates'] = cc.extra.get('rates', 0) + 1
    items.sort(key=lambda x: not x[0].startswith(('a_', 'd_n', 'R(', 'BR(tau', 'FL', 'AFBtot', 'I3', '<')))
    mc.parallel(c, one, items, chunk=4)
    c.sample('BR(Bs->mumu): WC = t*v, t in -2..2 x 1e-3')
