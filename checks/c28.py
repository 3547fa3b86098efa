"""C28: Wilson coefficient objects and likelihood caches over their history.

One wilson.Wilson object W, one flavio.WilsonCoefficients object F and two
measurement likelihoods are driven by every sequence (to a depth) of operations:
predictions and likelihood values at several parameter points (with equal hashes),
changes of options, new initial values (with equal hashes), reading coefficients,
modifying what was returned, failing calls. Every observation is compared with
that of newly created objects in the same abstract state."""
import itertools
import mc
import flavio
from wilson import Wilson
from flavio.statistics.likelihood import MeasurementLikelihood

OBS = ['BR(Bs->mumu)', 'BR(KL->mumu)']
LOBS = ['BR(Bs->mumu)', 'BR(B+->taunu)', ('<dBR/dq2>(B+->Kmumu)', 15., 22.)]

WCS = {
    # coefficients -1, -2 have the same hash
    'a': dict(wcdict={'C10_bsmumu': -1, 'C10_sdmumu': -1e-3, 'CVL_butaunutau': -1}, scale=160., eft='WET', basis='flavio'),
    'b': dict(wcdict={'C10_bsmumu': -2, 'C10_sdmumu': -1e-3, 'CVL_butaunutau': -1}, scale=160., eft='WET', basis='flavio'),
    's': dict(wcdict={'lq3_3323': 1e-8, 'lq1_2223': 2e-8, 'lq3_2212': 1e-9}, scale=91.1876, eft='SMEFT', basis='Warsaw'),
    '0': dict(wcdict={}, scale=160., eft='WET', basis='flavio'),
}
PARS = {}


def params():
    if not PARS:
        P = flavio.default_parameters.get_central_all()
        PARS['p'] = dict(P, gamma=-1.)
        PARS['q'] = dict(P, gamma=-2.)
        PARS['r'] = dict(P, gamma=-1., Vcb=.05)
        bad = dict(P)
        del bad['m_mu'], bad['m_tau']
        PARS['bad'] = bad
    return PARS


OPTS = {'q': ('qed_order', 0), 'Q': ('qed_order', 1), 'm': ('mb_matchingscale', 6.), 'M': ('mb_matchingscale', 4.2), 'e': ('smeft_matchingscale', 120.)}


def make_W(st):
    w = Wilson(**WCS[st[0]])
    for k, v in st[1]:
        w.set_option(k, v)
    return w


def make_F(st):
    f = flavio.WilsonCoefficients()
    if st[0] != '-':
        x = dict(WCS[st[0]])
        f.set_initial(x['wcdict'], x['scale'], eft=x['eft'], basis=x['basis'])
        for k, v in st[1]:
            f.set_option(k, v)
    return f


def likelihoods():
    return [MeasurementLikelihood(LOBS), MeasurementLikelihood(LOBS[:2])]


def setopt(st, o):
    d = dict(st[1])
    d[OPTS[o][0]] = OPTS[o][1]
    return (st[0], tuple(sorted(d.items())))


class World(object):
    def __init__(self, start):
        self.w, self.f = (start, ()), ('-', ())
        self.W = make_W(self.w)
        self.F = make_F(self.f)
        self.L = likelihoods()


def observe(kind, arg, obj, L):
    """the observations; also used on new objects for the reference"""
    P = params()
    if kind == 'pred':
        return tuple(flavio.Observable[o].prediction_par(P[arg], obj) for o in OBS)
    if kind == 'lik':
        return tuple(l.log_likelihood_par(P[arg], obj) for l in L)
    if kind == 'lpred':
        d = L[0].get_predictions_par(P[arg], obj)
        r = tuple(d[o] for o in LOBS)
        for k in d:                          # what was returned may be modified by the caller
            d[k] = 0.
        return r
    if kind == 'get':
        sec, scale, eft = {'g': ('sb', 4.8, 'WET'), 'h': ('bsmumu', 4.8, 'WET'), 'k': ('sd', 2., 'WET-3')}[arg]
        d = obj.get_wc(sec, scale, P['p'], eft=eft, basis='flavio')
        r = tuple(d[k] for k in sorted(d) if k in ('C10_bsmumu', 'C9_bsmumu', 'C10_sdmumu', 'C7_bs'))
        for k in d:
            d[k] = 0.
        return r
    if kind == 'bad':
        try:
            flavio.Observable[OBS[0]].prediction_par(P['bad'], obj)
        except KeyError:
            return 'KeyError'
        return 'no error'
    if kind == 'lbad':
        try:
            L[0].get_predictions_par(P['bad'], obj)
        except KeyError:
            return 'KeyError'
        return 'no error'


REF = {}


def reference(kind, arg, which, st):
    k = (kind, arg, which, st)
    if k not in REF:
        o = make_W(st) if which == 'W' else make_F(st)
        REF[k] = observe(kind, arg, o, likelihoods())
    return REF[k]


QUICK = ['W:pred:p', 'W:pred:q', 'W:lik:p', 'W:lik:r', 'W:lpred:q', 'W:new:b', 'W:opt:q', 'W:bad:',
         'F:pred:p', 'F:lik:p', 'F:lik:q', 'F:get:k', 'F:set:a', 'F:set:b', 'F:set:0', 'F:opt:q', 'S:lik:p']
FULL = QUICK + ['W:pred:r', 'W:lik:q', 'W:new:a', 'W:new:s', 'W:opt:Q', 'W:opt:m', 'W:opt:e', 'W:lbad:',
                'F:pred:r', 'F:get:g', 'F:set:s', 'F:opt:m', 'F:lpred:p']
SILENT = ('new', 'opt', 'set')


def run_hist(cc, start, hist):
    x = World(start)
    for n, op in enumerate(hist):
        who, kind, arg = op.split(':')
        if kind == 'new':
            x.w = (arg, ())
            x.W = make_W(x.w)
        elif kind == 'set':
            i = WCS[arg]
            x.F.set_initial(i['wcdict'], i['scale'], eft=i['eft'], basis=i['basis'])
            x.f = (arg, ())
        elif kind == 'opt':
            if who == 'W':
                x.W.set_option(*OPTS[arg])
                x.w = setopt(x.w, arg)
            else:
                if x.f[0] == '-':
                    return              # options of an object without initial values: not specified
                x.F.set_option(*OPTS[arg])
                x.f = setopt(x.f, arg)
        else:
            if who == 'S':
                obj, which, st = flavio.physics.eft._wc_sm, 'F', ('-', ())
            else:
                obj, which, st = (x.W, 'W', x.w) if who == 'W' else (x.F, 'F', x.f)
            got = observe(kind, arg, obj, x.L)
            ref = reference(kind, arg, which, st)
            cc.trans()
            if got != ref:
                cc.fail('%s/%s' % (start, '_'.join(hist[:n + 1])), 'history %s: %r, new objects in the same state: %r' % (
                    ' '.join(hist[:n + 1]), got, ref), start=start, history=hist[:n + 1])
                return
            wc = getattr(obj, 'wc', None)
            if wc is not None and st[0] in WCS and wc.dict != WCS[st[0]]['wcdict']:
                cc.fail('modified/%s/%s' % (start, '_'.join(hist[:n + 1])), 'the coefficients of the object are changed', history=hist[:n + 1])
    cc.state()
    cc.trace()


def part(cc, it):
    start, head, depth, ops = it
    for tail in itertools.product(ops, repeat=depth - len(head)):
        h = tuple(head) + tail
        if h[-1].split(':')[1] in SILENT:
            continue                        # nothing to observe at the end
        run_hist(cc, start, h)


def run(c):
    params()
    d = 4 if c.thorough else 3
    items = []
    for start, ops, depth in [('a', QUICK, d), ('s', QUICK if c.thorough else
                              ['W:pred:p', 'W:pred:q', 'W:lik:r', 'W:lik:p', 'W:opt:q', 'W:new:a', 'F:set:s', 'F:lik:p', 'F:pred:q', 'F:opt:e', 'F:get:g'], 3),
                             ('a', FULL, 3 if c.thorough else 2)]:
        for a in ops:
            for b in ops:
                items.append((start, (a, b), depth, ops))
    mc.parallel(c, part, items, chunk=2)
    c.extra['depth'] = d
    c.sample('W:pred:p W:pred:q W:lik:p')
    # the global SM object is never modified
    sm = flavio.physics.eft._wc_sm
    c.expect(sm.wc is None and not sm._options, 'sm-object', 'the global Standard Model object is modified')
    c.assumptions.append('options of a WilsonCoefficients object are set after its initial values (setting initial values resets them)')
    c.assumptions.append('coefficients of Wilson objects are not changed behind their back (as the package assumes)')
