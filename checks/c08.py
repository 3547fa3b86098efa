"""C08: likelihoods are the sum of the log-probabilities of the selected
measurements (and of the priors of the fit parameters).

A world of toy observables/measurements (registered through the public API in
forked processes; the real registries are emptied there) is explored
exhaustively: every subset of a set of measurement kinds, every set of
observables, include/exclude selections, pseudo-measurements, exclusion sets;
and every sequence of registry operations with a live likelihood."""
import itertools, warnings, math
import numpy as np
import mc
from refdist import *
import flavio
from flavio.statistics import probability as pr
from flavio.statistics.likelihood import MeasurementLikelihood, ParameterLikelihood, Likelihood

O1, O2, O3, O4 = 'verif toy1', 'verif toy2', ('verif toyq', 1.), ('verif toyq', 2.)
OBS = [O1, O2, O3, O4]
s2 = [[0.04, 0.01], [0.01, 0.09]]
s2b = [[0.25, -0.1], [-0.1, 0.16]]
s3 = [[0.04, 0.01, 0.], [0.01, 0.09, 0.02], [0., 0.02, 0.16]]
XI = [np.linspace(-2, 4, 5), np.linspace(-1, 3, 4)]
Y = np.arange(1, 21).reshape(5, 4) % 7 + 0.5


def kinds(shift=0.):
    """measurement kinds: name -> list of (observables, distribution, reference)"""
    x = shift
    return {
        'exp A': [([O1], pr.NormalDistribution(1. + x, .2), RNormal(1. + x, .2))],
        'exp B': [([O2], pr.AsymmetricNormalDistribution(2. + x, .3, .5), RAsym(2. + x, .3, .5)),
                  ([O1], pr.NormalDistribution(.7 + x, .3), RNormal(.7 + x, .3))],
        'exp C': [([O3, O1, O2], pr.MultivariateNormalDistribution([.9 + x, 1.8, 1.], s3), RMVN([.9 + x, 1.8, 1.], s3))],
        'exp D': [([O3, O4], pr.MultivariateNormalDistribution([.4 + x, 1.2], s2b), RMVN([.4 + x, 1.2], s2b)),
                  ([O1], pr.UniformDistribution(1. + x, 2.), RUniform(1. + x, 2.))],
        'Pseudo-measurement for E': [([O2, O1], pr.MultivariateNormalDistribution([1.5 + x, .8], s2), RMVN([1.5 + x, .8], s2))],
        'exp F': [([O4, O2], pr.MultivariateNumericalDistribution(XI, Y), RMVNum(XI, Y)), ([O3], pr.NormalDistribution(.5 + x, .1), RNormal(.5 + x, .1))],
    }


def ref_ll(reg, selected, lobs, excl, pred, delta):
    tot = 0.
    for name in selected:
        for obs, _, ref in reg[name]:
            keep = [i for i, o in enumerate(obs) if o in lobs and o not in excl]
            if not keep:
                continue
            tot += ref.logpdf([pred[obs[i]] for i in keep], keep)
            if delta:
                tot -= ref.logpdf([ref.central[i] for i in keep], keep)
    return tot


def ref_selected(reg, lobs, inc, exc, pseudo):
    out = []
    for n, cons in reg.items():
        if n.startswith('Pseudo-measurement') and not pseudo:
            continue
        if not any(o in lobs for obs, _, _ in cons for o in obs):
            continue
        if inc is not None and n not in inc:
            continue
        if exc is not None and n in exc:
            continue
        out.append(n)
    return out


def world():
    """toy observables in this (forked) process"""
    flavio.Measurement.clear_all()
    for n in ('verif toy1', 'verif toy2'):
        flavio.Observable(n)
    flavio.Observable('verif toyq', arguments=['q2'])
    c = world.calls = []
    def f1(wc, par):
        c.append('f1')
        return par['va'] + 2 * par['vb']
    def f2(wc, par):
        c.append('f2')
        return par['va'] * par['vb'] - par['vc']
    def fq(wc, par, q2):
        c.append('fq')
        return q2 * par['vc'] - par['va']
    flavio.classes.Prediction('verif toy1', f1)
    flavio.classes.Prediction('verif toy2', f2)
    flavio.classes.Prediction('verif toyq', fq)


def preds(par):
    a, b, v = par['va'], par['vb'], par['vc']
    return {O1: a + 2 * b, O2: a * b - v, O3: v - a, O4: 2 * v - a}


def define(name, cons):
    m = flavio.Measurement(name)
    for obs, d, _ in cons:
        m.add_constraint(obs, d)


PTS = [dict(va=.3, vb=.4, vc=.9), dict(va=-.2, vb=.7, vc=-.6)]
PRED = [dict(zip(OBS, (1.05, 1.9, .45, 1.1))), dict(zip(OBS, (.3, 2.6, .61, -.3)))]
SM = flavio.WilsonCoefficients()


def powerset(x, maxlen=None):
    x = list(x)
    return [s for k in range(len(x) + 1) if maxlen is None or k <= maxlen for s in itertools.combinations(x, k)]


def cmp(c, got, want, key, what, **kw):
    c.expect(close(got, want, 1e-9, 1e-11), key, '%s: %r instead of %r' % (what, got, want), **kw)


def static(c, item):
    mset, thorough = item
    world()
    K = kinds()
    orders = [mset]
    if len(mset) in (2, 3):
        orders.append(mset[::-1])
    for order in orders:
        flavio.Measurement.clear_all()
        reg = {}
        for n in order:
            define(n, K[n])
            reg[n] = K[n]
        names = list(order) + ['nonexistent']
        sels = [(None, None)] + [(None, list(s)) for s in powerset(names, 2) if s] + [(list(s), None) for s in powerset(names, 2) if s]
        lobss = [s for s in powerset(OBS) if s] + [(O4, O2, O1), (O3, O1)]
        for lobs in lobss:
            for inc, exc in sels:
                for pseudo in (False, True):
                    c.state()
                    key = 'static/%s/%s/inc=%s/exc=%s/%s' % ('+'.join(order), lobs, inc, exc, pseudo)
                    rp = dict(measurements=list(order), observables=lobs, include=inc, exclude=exc, pseudo=pseudo)
                    sel = ref_selected(reg, lobs, inc, exc, pseudo)
                    covered = all(any(o in obs for n in sel for obs, _, _ in reg[n]) for o in lobs)
                    try:
                        L = MeasurementLikelihood(list(lobs), include_measurements=inc, exclude_measurements=exc, include_pseudo_measurements=pseudo)
                    except AssertionError:
                        c.expect(not covered, key, 'rejected although all observables are measured', **rp)
                        continue
                    if not c.expect(covered, key, 'accepted although an observable is not measured', **rp):
                        continue
                    c.trace()
                    c.expect(sorted(L.get_measurements) == sorted(sel), key + '/selected', 'measurements %s instead of %s' % (L.get_measurements, sel), **rp)
                    for excl in powerset(lobs, 2 if not thorough else None):
                        want = sum(len({o for obs, _, _ in reg[n] for o in obs} & set(lobs) - set(excl)) for n in sel)
                        got = L.get_number_observations(exclude_observables=list(excl) or None)
                        c.expect(got == want, key + '/nobs/%s' % (excl,), 'number of observations %s instead of %s' % (got, want), **rp)
                        for ip, pred in enumerate(PRED):
                            for delta in (False, True):
                                got = float(L.log_likelihood_pred(pred, exclude_observables=(list(excl) or None) if ip else set(excl), delta=delta))
                                cmp(c, got, ref_ll(reg, sel, lobs, excl, pred, delta), key + '/%s/%d/%s' % (excl, ip, delta), 'log-likelihood', **rp)
    c.sample(dict(measurements=list(mset)))


def priors():
    p = flavio.ParameterConstraints()
    p.add_constraint(['va', 'vc'], pr.MultivariateNormalDistribution([.2, .8], s2))
    p.add_constraint(['vb'], pr.AsymmetricNormalDistribution(.5, .1, .2))
    p.add_constraint(['vd'], pr.NormalDistribution(3., .5))
    ref = [(['va', 'vc'], RMVN([.2, .8], s2)), (['vb'], RAsym(.5, .1, .2)), (['vd'], RNormal(3., .5))]
    return p, ref


def composition(c, item):
    """log_likelihood_par = log_likelihood_pred o prediction; total = prior + exp"""
    mset, _ = item
    world()
    K = kinds()
    reg = {}
    for n in mset:
        define(n, K[n])
        reg[n] = K[n]
    for lobs in [(O1, O2, O3), (O2, O4), (O4, O3, O2, O1), (O3,)]:
        sel = ref_selected(reg, lobs, None, None, False)
        if not all(any(o in obs for n in sel for obs, _, _ in reg[n]) for o in lobs):
            continue
        P, ref = priors()
        L = MeasurementLikelihood(list(lobs))
        for fit in powerset(['va', 'vb', 'vc', 'vd']) + [('vc', 'va'), ('vd', 'vc', 'vb')]:
            c.state(); c.trace()
            key = 'total/%s/%s/fit=%s' % ('+'.join(mset), lobs, fit)
            rp = dict(measurements=list(mset), observables=lobs, fit=fit)
            T = Likelihood(par_obj=P, fit_parameters=list(fit), observables=list(lobs))
            PL = ParameterLikelihood(par_obj=P, parameters=list(fit))
            if fit:
                c.expect(np.allclose(PL.get_central, [dict(va=.2, vc=.8, vb=.5, vd=3.)[f] for f in fit], rtol=1e-12), key + '/central', 'central values %r' % (PL.get_central,), **rp)
                c.expect(np.shape(PL.get_random) == (len(fit),), key + '/random', 'shape of random values', **rp)
            for pt in PTS:
                full = dict(pt, vd=3.3)
                par0 = dict(full)
                want_pred = preds(pt)
                got = L.get_predictions_par(full, SM)
                c.expect(set(got) == set(lobs) and all(close(got[o], want_pred[o]) for o in lobs), key + '/pred', 'predictions %r' % got, **rp)
                for delta in (False, True):
                    prior = 0.
                    for names, r in ref:
                        keep = [i for i, n in enumerate(names) if n in fit]
                        if keep:
                            prior += r.logpdf([full[names[i]] for i in keep], keep)
                            if delta:
                                prior -= r.logpdf([r.central[i] for i in keep], keep)
                    cmp(c, T.log_prior_fit_parameters(full, delta=delta), prior, key + '/prior/%s' % delta, 'prior', **rp)
                    if fit:
                        cmp(c, PL.log_likelihood_par(full, delta=delta), prior, key + '/parlik/%s' % delta, 'parameter likelihood', **rp)
                    for excl in powerset(lobs, 1):
                        want = ref_ll(reg, sel, lobs, excl, want_pred, delta)
                        ex = list(excl) or None
                        cmp(c, L.log_likelihood_par(full, SM, exclude_observables=ex, delta=delta), want, key + '/exp/%s/%s' % (excl, delta), 'experimental likelihood', **rp)
                        cmp(c, T.log_likelihood_exp(full, SM, exclude_observables=ex, delta=delta), want, key + '/texp/%s/%s' % (excl, delta), 'experimental likelihood', **rp)
                        cmp(c, T.log_likelihood(full, SM, exclude_observables=ex, delta=delta), want + prior, key + '/tot/%s/%s' % (excl, delta), 'total likelihood', **rp)
                c.expect(full == par0, key + '/pure', 'parameter dictionary modified', **rp)


def registry(c, first):
    """a live likelihood follows every sequence of registry operations"""
    world()
    K0, K1 = kinds(), kinds(.15)
    names = ['exp A', 'exp C', 'exp D', 'Pseudo-measurement for E', 'exp F']
    ops = [('add', n) for n in names] + [('replace', n) for n in ('exp A', 'exp C')] + [('del', n) for n in ('exp A', 'exp C', 'exp D')]
    depth = 4 if c.thorough else 3
    lobs = [O1, O2, O3]
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = (first,) + rest
        flavio.Measurement.clear_all()
        reg = {}
        for n in ('exp C', 'exp B'):
            define(n, K0[n]); reg[n] = K0[n]
        variants = [dict(), dict(exclude_measurements=['exp C', 'exp A']), dict(include_measurements=['exp C', 'exp B', 'exp D']), dict(include_pseudo_measurements=True)]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            Ls = []
            for v in variants:
                try:
                    Ls.append((v, MeasurementLikelihood(list(lobs), **v)))
                except AssertionError:
                    pass
        c.state(); c.trace()
        hist = []
        for j in seq:
            op, n = ops[j]
            hist.append('%s %s' % (op, n))
            if op == 'del':
                if n in reg:
                    del flavio.Measurement[n]
                    del reg[n]
            else:
                define(n, (K1 if op == 'replace' else K0)[n])
                reg[n] = (K1 if op == 'replace' else K0)[n]
            for iv, (v, L) in enumerate(Ls):
                sel = ref_selected(reg, lobs, v.get('include_measurements'), v.get('exclude_measurements'), v.get('include_pseudo_measurements', False))
                key = 'registry/%s/%d' % ('>'.join(hist), iv)
                c.expect(sorted(L.get_measurements) == sorted(sel), key, 'measurements %s instead of %s' % (L.get_measurements, sel), history=hist, options=v)
                cmp(c, L.log_likelihood_pred(PRED[0]), ref_ll(reg, sel, lobs, (), PRED[0], False), key + '/ll', 'log-likelihood after %s' % hist, history=hist, options=v)
                cmp(c, L.log_likelihood_par(PTS[0], SM), ref_ll(reg, sel, lobs, (), preds(PTS[0]), False), key + '/llpar', 'log-likelihood after %s' % hist, history=hist, options=v)


def run(c):
    msets = [s for s in powerset(kinds()) if s]
    if not c.thorough:
        msets = [s for i, s in enumerate(msets) if len(s) <= 2 or len(s) == 6 or len(s) == 3 and i % 3 == 0]
    items = [('static', (s, c.thorough)) for s in sorted(msets, key=len, reverse=True)]
    items += [('composition', (s, 0)) for s in msets if len(s) in (1, 2, 6)]
    items += [('registry', j) for j in range(10)]
    def do(cs, it):
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            {'static': static, 'composition': composition, 'registry': registry}[it[0]](cs, it[1])
    mc.parallel(c, do, items, chunk=1)
    try:
        MeasurementLikelihood(['eps_K'], include_measurements=['x'], exclude_measurements=['y'])
        c.fail('both', 'include and exclude accepted at the same time')
    except ValueError:
        pass
    # the real database: the sum over all measurements, one likelihood per observable
    def real(cs, o):
        cs.state(); cs.trace()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            L = MeasurementLikelihood([o])
        pred = {o: flavio.Measurement[L.get_measurements[0]].get_central(o) * 1.02}
        want = 0.
        for n, m in flavio.Measurement.instances.items():
            if o in m.all_parameters:
                want += float(np.ravel(m.get_logprobability_single(o, pred[o]))[0])
        cmp(cs, float(L.log_likelihood_pred(pred)), want, 'real/%s' % (o,), 'log-likelihood')
    allobs = []
    for m in flavio.Measurement.instances.values():
        for o in m.all_parameters:
            if o not in allobs:
                allobs.append(o)
    mc.parallel(c, real, allobs if c.thorough else allobs[::8])
    c.assumptions.append('observables/measurements from a toy world (registered through the public API) of 4 observables and 6 measurements')
