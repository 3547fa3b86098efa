"""Kinematics of the semileptonic decays among the registered observables."""
import re
import flavio

PAR = flavio.default_parameters.get_central_all()
LEPTONS = {'e': 'e', 'mu': 'mu', 'tau': 'tau'}


def lepton(s):
    """('ee', ...) -> (lepton masses sum rule, names) for the end of a process name"""
    for tail, ls in (('tautau', ('tau', 'tau')), ('mumu', ('mu', 'mu')), ('ee', ('e', 'e')), ('taunu', ('tau',)), ('munu', ('mu',)),
                     ('enu', ('e',)), ('lnu', ('e',)), ('nunu', ()), ('ll', ('e', 'e'))):
        if s.endswith(tail):
            return s[:-len(tail)], ls, tail
    return None


# (initial, final hadron as in the name, charged current) -> parameter names
def hadrons(ini, fin, tail):
    cc = tail in ('taunu', 'munu', 'enu', 'lnu')
    charged = {'B+': 1, 'B0': 0, 'Bs': 0, 'D+': 1, 'D0': 0, 'B': 0, 'D': 0}.get(ini, 0)
    q = (1 - charged if cc else charged)        # charge of the final hadron
    I = {'B': 'B0', 'D': 'D+'}.get(ini, ini)
    if ini == 'D':
        q = 0
    F = {'K*': 'K*+' if q else 'K*0', 'K': 'K+' if q else 'K0', 'pi': 'pi+' if q else 'pi0', 'rho': 'rho+' if q else 'rho0',
         'D': 'D+' if q else 'D0', 'D*': 'D*+' if q else 'D*0'}.get(fin, fin)
    return I, F


def region(proc):
    """proc: '(B0->K*mumu)' -> physical range of q2, or None"""
    m = re.match(r'^\((.*?)->(.*)\)$', proc)
    if not m or m.group(2).endswith('gamma'):
        return None
    ini, rest = m.groups()
    r = lepton(rest)
    if r is None:
        return None
    fin, ls, tail = r
    lo = sum(PAR['m_' + l] for l in ls)**2
    if fin in ('Xs', 'Xd'):
        return lo, None, tail
    I, F = hadrons(ini, fin, tail)
    if 'm_' + I not in PAR or 'm_' + F not in PAR:
        return None
    return lo, (PAR['m_' + I] - PAR['m_' + F])**2, tail


def binned():
    """[(name, family, process)] of all observables binned in q2"""
    out = []
    for n, o in flavio.Observable.instances.items():
        if o.arguments and tuple(o.arguments) == ('q2min', 'q2max'):
            m = re.match(r'^<(.*?)>(/BR)?(\(.*\))$', n)
            out.append((n, m.group(1) + (m.group(2) or ''), m.group(3)))
    return out


def partner(fam, proc):
    n = ('d' + fam + '/dq2' if fam in ('BR', 'BR_L', 'BR_T') else fam) + proc
    o = flavio.Observable.instances.get(n)
    if o is None or not o.arguments or tuple(o.arguments) != ('q2',):
        return None
    return n


def points():
    """Wilson coefficient points: name -> WilsonCoefficients or None"""
    from wilson import wcxf
    B = wcxf.Basis['WET', 'flavio']
    known = set(k for s in B.sectors.values() for k in s)
    def mk(C):
        assert all(k in known for k in C), [k for k in C if k not in known]
        w = flavio.WilsonCoefficients()
        w.set_initial(C, 4.8)
        return w
    out = {'SM': None}
    for tag, s in (('A', 1.), ('B', -1.6)):
        C = {}
        for q in ('bs', 'bd'):
            for i, l in enumerate(('ee', 'mumu', 'tautau')):
                f = s * (1 + .3 * i)
                C.update({'C9_' + q + l: f * (-1 + .5j), 'C10_' + q + l: f * (.7 - .3j), 'C9p_' + q + l: f * (.5 + .2j),
                          'C10p_' + q + l: f * (.2 - .3j), 'CS_' + q + l: f * .03, 'CP_' + q + l: f * .04j, 'CSp_' + q + l: f * .02j, 'CPp_' + q + l: -.02 * f})
            C.update({'C7_' + q: s * (.05 + .1j), 'C7p_' + q: s * .1j})
            for i, nu in enumerate(('e', 'mu', 'tau')):
                C.update({'CL_%snu%snu%s' % (q, nu, nu): s * (2 + 1j) * (1 + .3 * i), 'CR_%snu%snu%s' % (q, nu, nu): -s})
        for q in ('bc', 'bu', 'dc', 'sc'):
            for i, l in enumerate(('e', 'mu', 'tau')):
                for k, v in dict(CVL=.1 + .2j, CVR=.1j, CSR=.2, CSL=-.1 + .1j, CT=.05 - .03j).items():
                    C['%s_%s%snu%s' % (k, q, l, l)] = s * v * (1 + .4 * i)
        out[tag] = mk(C)
    return out


def value(name, W, *args):
    if W is None:
        return flavio.sm_prediction(name, *args)
    return flavio.np_prediction(name, W, *args)
