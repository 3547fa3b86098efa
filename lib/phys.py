"""Helpers to enumerate and evaluate the registered observables."""
import flavio
from collections import OrderedDict
import pdfstub
import os

if os.environ.get('VERIF_SCRATCH'):
    pdfstub.write(flavio.config['PDF set']['dileptons']['name'])

BINS = [(0.05, 0.3), (1., 6.), (15., 17.)]
Q2 = [0.02, 0.5, 2., 6., 15., 18.]


def arg_grid(o):
    """All argument tuples of the bounded argument space for observable `o`."""
    a = o.arguments
    if a is None:
        return [()]
    a = tuple(a)
    if a == ('q2',):
        return [(x,) for x in Q2]
    if a == ('q2min', 'q2max'):
        return BINS
    if a == ('CeFFij', 'CeFFji', 'CeFFtildeij', 'CeFFtildeji'):
        return [(0.1, 0.2, 0.05, -0.1)]
    if a == ('CeGGij', 'CeGGji'):
        return [(0.1, 0.2)]
    if a in (('clmin', 'clmax'), ('cVmin', 'cVmax')):
        return [(-0.5, 0.3)]
    if a == ('phimin', 'phimax'):
        return [(0.5, 2.)]
    if a in (('cl',), ('cV',)):
        return [(0.3,)]
    if a == ('phi',):
        return [(0.5,)]
    if a == ('me_E',):
        return [(0.1,)]
    if a == ('E',):
        return [(161.3,), (206.6,)]
    if a == ('E', 'thetamin', 'thetamax'):
        return [(182.66, -1, -0.8), (205.92, 0.4, 0.6)]
    if a == ('qmin', 'qmax'):
        return [(1000., 1300.)]
    if a == ('mTmin', 'mTmax'):
        return [(600., 900.)]
    return []


def instances(filt=None):
    out = []
    for name, o in flavio.Observable.instances.items():
        if filt is not None and not filt(name):
            continue
        for args in arg_grid(o):
            out.append((name, args))
    return out


def sm_evaluates(name, args=()):
    """False for the instances that fail in the SM (property C20 judges those)"""
    try:
        flavio.sm_prediction(name, *args)
    except Exception:
        return False
    return True


# Wilson coefficient points -------------------------------------------------
def wc_values(eft, basis, sectors=None, size=1., phase=True, sign=1):
    """a deterministic, generic point: every coefficient (of the given
    sectors) non-zero and different"""
    from wilson import wcxf
    B = wcxf.Basis[eft, basis]
    vals = {}
    n = 0
    for s, wcs in B.sectors.items():
        for k in sorted(wcs):
            n += 1
            if sectors is not None and s not in sectors:
                continue
            d = wcs[k] or {}
            v = size * (0.3 + (n * 37 % 101) / 101.) * (1 if n % 3 else -1) * sign
            if phase and not d.get('real'):
                v = v * (1 + 0.5j * ((n * 53 % 17) / 17. - .4))
            vals[k] = v
    return vals


WET_SECTORS_SL = ('sb', 'db', 'ds', 'sd', 'sbnunu', 'dbnunu', 'sdnunu', 'cbenu', 'cbmunu', 'cbtaunu', 'ubenu', 'ubmunu',
                  'ubtaunu', 'usenu', 'usmunu', 'ustaunu', 'udenu', 'udmunu', 'udtaunu', 'csenu', 'csmunu', 'cstaunu',
                  'cdenu', 'cdmunu', 'cdtaunu', 'sbemu', 'sbmue', 'sbetau', 'sbtaue', 'sbmutau', 'sbtaumu', 'dbemu',
                  'dbmue', 'sdemu', 'sdmue', 'sbsb', 'dbdb', 'sdsd', 'cu', 'cucu', 'mue', 'taue', 'taumu', 'mutau', 'etau', 'emu')


class Trace(dict):
    """parameter dictionary recording who reads what"""
    def __init__(self, d, rec, depth2=False):
        dict.__init__(self, d)
        self.rec = rec
        self.depth2 = depth2

    def _r(self, k):
        import sys
        f = sys._getframe(2)
        key = (f.f_code.co_filename, f.f_code.co_qualname)
        if self.depth2 and f.f_back is not None:
            key += (f.f_back.f_code.co_qualname,)
        self.rec.add((key, k))

    def __getitem__(self, k):
        self._r(k)
        return dict.__getitem__(self, k)

    def get(self, k, d=None):
        self._r(k)
        return dict.get(self, k, d)

    def copy(self):
        return Trace(dict.copy(self), self.rec, self.depth2)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return Trace(dict.copy(self), self.rec, self.depth2)


def greedy_cover(inv, cost=None):
    """inv: {task: set of goals} -> list of tasks covering all goals (preferring cheap ones)"""
    left = set().union(*inv.values()) if inv else set()
    out = []
    order = sorted(inv)
    cost = cost or (lambda t: 0.)
    while left:
        b = max(order, key=lambda t: len(inv[t] & left) / (1 + cost(t)))
        if not inv[b] & left:
            break
        out.append(b)
        left -= inv[b]
    return out
