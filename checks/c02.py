"""C02: dump -> load is the identity on behaviour, and dumping is pure."""
import copy, itertools, os, pickle, warnings
import numpy as np
import yaml
import mc, distgrid
from refdist import close


def state(o, depth=0):
    """comparable deep snapshot of an object's data"""
    if isinstance(o, np.ndarray):
        return ('arr', o.dtype.str, o.shape, o.tobytes())
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(state(x, depth + 1) for x in o)
    if isinstance(o, dict):
        return ('dict',) + tuple(sorted((repr(k), state(v, depth + 1)) for k, v in o.items()))
    if hasattr(o, '_parameters'):
        return ('constraints', tuple(sorted((str(k), i, state(d, depth + 1)) for k, (i, d) in o._parameters.items())),
                tuple((k, repr(v)) for k, v in sorted(o.__dict__.items()) if not k.startswith('_')))
    if hasattr(o, '__dict__') and type(o).__module__.startswith('flavio') and depth < 8:
        # private attributes may be caches
        return (type(o).__name__, state({k: v for k, v in o.__dict__.items() if not k.startswith('_')}, depth + 1))
    if isinstance(o, (int, float, str, bool, type(None), complex)):
        return (type(o).__name__, repr(o))
    return type(o).__name__


def weight(m):
    """number of data points of a measurement's distributions"""
    n = 0
    for _, d in m._parameters.values():
        for k in ('x', 'data', 'y'):
            n += np.size(getattr(d, k, ()))
    return n


def lp(d, x):
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            return float(np.ravel(d.logpdf(x))[0])
    except Exception as e:
        return 'exc ' + type(e).__name__


def same(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return close(a, b, 1e-8, 1e-12) or (a != a and b != b)


def behaviour_equal(a, b):
    """compare two distributions; returns None or a text"""
    if type(a) is not type(b):
        return 'class %s became %s' % (type(a).__name__, type(b).__name__)
    ca, cb = np.ravel(np.asarray(a.central_value, float)), np.ravel(np.asarray(b.central_value, float))
    if np.ndim(a.central_value) != np.ndim(b.central_value) or ca.shape != cb.shape or \
            not np.allclose(ca, cb, rtol=1e-10, atol=0):
        return 'central value %r became %r' % (a.central_value, b.central_value)
    if len(ca) == 1 and np.ndim(a.central_value) == 0:
        pts = distgrid.probe_points(a)
        for x in pts:
            if not same(lp(a, x), lp(b, x)):
                return 'log-density at %r: %r became %r' % (x, lp(a, x), lp(b, x))
        for s in ('support',):
            if not np.allclose(np.asarray(a.support, float), np.asarray(b.support, float), rtol=1e-8, atol=0):
                return 'support %r became %r' % (a.support, b.support)
        for side in ('get_error_left', 'get_error_right'):
            try:
                ea = getattr(a, side)()
            except Exception as e:
                ea = type(e).__name__
            try:
                eb = getattr(b, side)()
            except Exception as e:
                eb = type(e).__name__
            if isinstance(ea, str) or isinstance(eb, str):
                if ea != eb:
                    return '%s %r became %r' % (side, ea, eb)
            elif not same(float(ea), float(eb)):
                return '%s %r became %r' % (side, ea, eb)
    else:
        n = len(ca)
        sup = np.asarray(a.support, float)
        lo, hi = sup[0], sup[-1]
        for t in (.1, .37, .5, .62, .93):
            x = lo + t * (hi - lo)
            x = x + np.arange(n) * 0.01 * (hi - lo)
            if not same(lp(a, x), lp(b, x)):
                return 'log-density at %r: %r became %r' % (x, lp(a, x), lp(b, x))
            for k in range(n):
                ex = tuple(i for i in range(n) if i != k)
                va, vb = float(np.ravel(a.logpdf([x[k]], exclude=ex))[0]), float(np.ravel(b.logpdf([x[k]], exclude=ex))[0])
                if not same(va, vb):
                    return 'marginal %d: %r became %r' % (k, va, vb)
    return None


def constraints_equal(a, b):
    if [str(x) for x in sorted(map(str, a.all_parameters))] != sorted(map(str, b.all_parameters)):
        return 'names %s became %s' % (sorted(map(str, a.all_parameters))[:5], sorted(map(str, b.all_parameters))[:5])
    seen = set()
    for p in a.all_parameters:
        if p not in b.all_parameters:
            return 'name %r lost' % (p,)
        ia, da = a._parameters[p]
        ib, db = b._parameters[p]
        if not np.allclose(a.get_central(p), b.get_central(p), rtol=1e-10, atol=0):
            return 'central value of %s: %r became %r' % (p, a.get_central(p), b.get_central(p))
        if id(da) not in seen:
            seen.add(id(da))
            if ia == ib:
                r = behaviour_equal(da, db)
                if r:
                    return '%s: %s' % (p, r)
    # joint behaviour: same total log-probability at displaced points
    ca = a.get_central_all()
    for f in (0., .01, -.02):
        x = {}
        for i, (k, v) in enumerate(sorted(ca.items(), key=lambda t: str(t[0]))):
            x[k] = v * (1 + f * ((i % 3) - 1)) if v else f * 1e-9
        va = [float(np.ravel(v)[0]) for v in a.get_logprobability_all(x).values()]
        vb = [float(np.ravel(v)[0]) for v in b.get_logprobability_all(x).values()]
        va, vb = sorted(va), sorted(vb)
        if len(va) != len(vb) or not all(same(p, q) for p, q in zip(va, vb)):
            return 'joint log-probabilities differ at displacement %g' % f
    return None


META = ('inspire', 'hepdata', 'experiment', 'url', 'description', 'name')


def run(c):
    import flavio
    from flavio.statistics import probability as pr
    from flavio.statistics.likelihood import (MeasurementLikelihood, ParameterLikelihood, Likelihood, FastLikelihood)
    from flavio.classes import ParameterConstraints, Measurement
    dists = distgrid.univariate(pr, c.thorough) + distgrid.multivariate(pr)

    def do_dist(cs, i):
        label, mk = dists[i]
        cs.state(); cs.trace()
        d = mk()
        before, rep = state(d), repr(d)
        for dd, it, al in itertools.product((False, True), repeat=3):
            d.get_dict(distribution=dd, iterate=it, arraytolist=al)
            cs.expect(state(d) == before and repr(d) == rep, 'pure/get_dict/%s' % label,
                      'get_dict(%s,%s,%s) changed the object' % (dd, it, al), dist=label)
        y1 = d.get_yaml()
        y2 = d.get_yaml()
        cs.expect(y1 == y2 and state(d) == before, 'pure/get_yaml/%s' % label, 'dumping changed the object', dist=label)
        data = yaml.safe_load(y1)
        snap = copy.deepcopy(data)
        l = pr.dict2dist(data)
        cs.expect(data == snap, 'pure/load/%s' % label, 'loading changed the data', dist=label)
        r = behaviour_equal(d, l[0])
        cs.expect(len(l) == 1 and r is None, 'dist/%s' % label, r, dist=label, yaml=y1[:500])
        cs.expect(l[0].get_yaml() == y1 or behaviour_equal(l[0], pr.dict2dist(yaml.safe_load(l[0].get_yaml()))[0]) is None,
                  'dist2/%s' % label, 'second generation differs', dist=label)
        # the three names a distribution can be given
        cls = type(d)
        for nm in (cls.__name__, cls.class_to_string()):
            cs.expect(pr.string_to_class(nm) is cls, 'classname/%s' % nm, 'name does not map back', dist=label)
        # as a member of a collection, next to others
        pc = ParameterConstraints()
        if np.ndim(d.central_value) == 0:
            pc.add_constraint(['x1'], d)
        else:
            pc.add_constraint(['x%d' % k for k in range(len(d.central_value))], d)
        pc.add_constraint(['other'], pr.NormalDistribution(1., .1))
        text = pc.get_yaml()
        cs.expect(state(d) == before and repr(d) == rep, 'pure/collection/%s' % label, 'dumping changed the object', dist=label)
        pc2 = ParameterConstraints.from_yaml(text)
        r = constraints_equal(pc, pc2)
        cs.expect(r is None, 'collection/%s' % label, r, dist=label)
        p3 = pc.copy()
        r = constraints_equal(pc, p3)
        cs.expect(r is None, 'copy/%s' % label, r, dist=label)
        d4 = pickle.loads(pickle.dumps(d))
        r = behaviour_equal(d, d4)
        cs.expect(r is None, 'pickle/%s' % label, r, dist=label)

    scratch = os.environ['VERIF_SCRATCH']

    def do_meas(cs, name):
        cs.state(); cs.trace()
        m = Measurement[name]
        before = state(m)
        fn = os.path.join(scratch, 'm%d.yml' % os.getpid())
        flavio.measurements.write_file(fn, [name])
        cs.expect(state(m) == before, 'meas/pure/%s' % name, 'dumping changed the measurement', measurement=name)
        names = flavio.measurements.read_file(fn)
        m2 = Measurement.instances[name]
        Measurement.instances[name] = m
        cs.expect(names == [name] and m2 is not m, 'meas/names/%s' % name, 'read back %s' % names, measurement=name)
        for k in META:
            cs.expect(getattr(m, k, None) == getattr(m2, k, None), 'meas/meta/%s/%s' % (k, name),
                      '%s: %r became %r' % (k, getattr(m, k, None), getattr(m2, k, None)), measurement=name)
        r = constraints_equal(m, m2)
        cs.expect(r is None, 'meas/%s' % name, r, measurement=name)

    def do_params(cs, _):
        cs.state(); cs.trace()
        pc = flavio.default_parameters
        before = state(pc)
        fn = os.path.join(scratch, 'p.yml')
        flavio.parameters.write_file(fn, pc)
        cs.expect(state(pc) == before, 'params/pure', 'dumping changed the default parameters')
        p2 = flavio.parameters.read_file(fn)
        r = constraints_equal(pc, p2)
        cs.expect(r is None, 'params', r)
        # all measurements in one file, by instance
        ms = [m for m in Measurement.instances.values() if cs.thorough or weight(m) < 200]
        fn = os.path.join(scratch, 'all.yml')
        flavio.measurements.write_file(fn, ms)
        names = flavio.measurements.read_file(fn)
        new = [Measurement.instances[m.name] for m in ms]
        for m in ms:
            Measurement.instances[m.name] = m
        cs.expect(names == [m.name for m in ms], 'meas-all/names', 'names after reload differ')
        for m, n in zip(ms, new):
            cs.state()
            cs.expect(sorted(map(str, m.all_parameters)) == sorted(map(str, n.all_parameters)),
                      'meas-all/obs/%s' % m.name, 'observables differ', measurement=m.name)

    # likelihood definitions
    obs_sets = [['eps_K'], [('<P5p>(B0->K*mumu)', 1.1, 6), 'eps_K'], ['DeltaM_s', 'BR(Bs->mumu)', ('<Rmue>(B0->K*ll)', 1.1, 6.0)]]
    par_mods = [(), (('m_b', '4.2(1)'),), (('Vub', '3.9(1)e-3'), ('m_c', '1.2+-0.1'), ('tau_B0', '2.3e12'))]

    def mod(par_mod):
        p = flavio.default_parameters
        if par_mod:
            p = p.copy()
            for k, v in par_mod:
                p.set_constraint(k, v)
        return p

    import re
    def lik_item(cs, it):
        kind, iobs, imod, inc, fit, pseudo = it
        obs = obs_sets[iobs]
        par = mod(par_mods[imod])
        cs.state(); cs.trace()
        ms = []
        for n, m in Measurement.instances.items():
            if set(m.all_parameters) & set(obs):
                ms.append(n)
        kw = {}
        if inc == 'exclude':
            kw['exclude_measurements'] = ['CMS Bs->mumu 2013', 'nonexistent measurement']
        elif inc == 'include':
            kw['include_measurements'] = ms
        key = 'likelihood/%s/%s/%s/%s/%s/%s' % it
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if kind == 'measurement':
                L = MeasurementLikelihood(obs, include_pseudo_measurements=pseudo, **kw)
                cls = MeasurementLikelihood
            elif kind == 'parameter':
                L = ParameterLikelihood(par_obj=par, parameters=list(fit))
                cls = ParameterLikelihood
            elif kind == 'full':
                L = Likelihood(par_obj=par, fit_parameters=list(fit) or None, observables=obs,
                               include_pseudo_measurements=pseudo, **kw)
                cls = Likelihood
            else:
                nui = {'all': 'all', 'none': [], 'some': ['m_b', 'Vub']}[pseudo]
                L = FastLikelihood('verif lik', par_obj=par, fit_parameters=list(fit), observables=obs,
                                   nuisance_parameters=nui, **kw)
                cls = FastLikelihood
            text = L.dump()
            cs.expect(L.dump() == text, key + '/pure', 'second dump differs', item=it)
            fn = os.path.join(scratch, 'l%d.yml' % os.getpid())
            with open(fn, 'w') as f:
                L.dump(stream=f)
            with open(fn) as f:
                cs.expect(f.read() == text, key + '/stream', 'dump to stream differs', item=it)
            Ls = [cls.load(text)]
            with open(fn) as f:
                Ls.append(cls.load(f))
            d0 = L.get_yaml_dict()
            snap = copy.deepcopy(d0)
            Ls.append(cls.load_dict(d0))
            cs.expect(d0 == snap, key + '/loadpure', 'loading changed the dictionary', item=it)
        pc = flavio.default_parameters.get_central_all()
        pt = dict(pc, m_b=4.21, m_c=1.25, Vub=3.8e-3)
        for j, M in enumerate(Ls):
            for attr in ('observables', 'parameters', 'fit_parameters', 'exclude_measurements', 'include_measurements',
                         'include_pseudo_measurements', 'nuisance_parameters', 'name'):
                if hasattr(L, attr):
                    va, vb = getattr(L, attr), getattr(M, attr, 'missing')
                    va, vb = va or None, vb or None
                    if isinstance(va, (list, tuple)) and isinstance(vb, (list, tuple)):
                        va, vb = sorted(map(str, va)) if attr == 'nuisance_parameters' else list(va), \
                            sorted(map(str, vb)) if attr == 'nuisance_parameters' else list(vb)
                    cs.expect(va == vb, '%s/%s' % (key, attr), '%s: %r became %r' % (attr, va, vb), item=it)
            if hasattr(L, 'par_obj'):
                a, b = L.par_obj.get_central_all(), M.par_obj.get_central_all()
                bad = [k for k in set(a) | set(b) if k not in a or k not in b or not close(a[k], b[k], 1e-10)]
                cs.expect(not bad, key + '/par', 'parameters changed: %s' % bad[:5], item=it)
            if j == 0:
                if kind == 'parameter':
                    if fit:
                        cs.expect(same(L.log_likelihood_par(pt), M.log_likelihood_par(pt)), key + '/value',
                                  'parameter likelihood changed', item=it)
                elif kind in ('measurement', 'full'):
                    la = L if kind == 'measurement' else L.measurement_likelihood
                    lb = M if kind == 'measurement' else M.measurement_likelihood
                    cs.expect(sorted(la.get_measurements) == sorted(lb.get_measurements), key + '/used',
                              'measurements used differ', item=it)
                    pred = {}
                    for o in obs:
                        m = next(Measurement[n] for n in ms if o in Measurement[n].all_parameters)
                        pred[o] = m.get_central(o)
                    cs.expect(same(float(la.log_likelihood_pred(pred)), float(lb.log_likelihood_pred(pred))),
                              key + '/value', 'likelihood value changed', item=it)
                    if kind == 'full':
                        cs.expect(same(float(L.log_prior_fit_parameters(pt)), float(M.log_prior_fit_parameters(pt))),
                                  key + '/prior', 'prior changed', item=it)

    items = [('dist', i) for i in range(len(dists))]
    heavy = sorted(Measurement.instances, key=lambda n: -weight(Measurement[n]))
    items += [('meas', n) for n in heavy]
    items += [('params', 0)]
    liks = []
    for iobs, inc, pseudo in itertools.product(range(3), ('none', 'exclude', 'include'), (False, True)):
        liks.append(('measurement', iobs, 0, inc, (), pseudo))
    for imod, fit in itertools.product(range(3), ((), ('m_b',), ('m_b', 'Vub', 'm_c'))):
        liks.append(('parameter', 0, imod, 'none', fit, False))
        for inc in ('none', 'exclude', 'include'):
            liks.append(('full', imod, imod, inc, fit, False))
            for nui in ('all', 'none', 'some'):
                if c.thorough or (inc == 'none' or nui == 'some'):
                    liks.append(('fast', imod, imod, inc, fit, nui))
        liks.append(('full', 1, imod, 'none', fit, True))
    items += [('lik', l) for l in liks]
    # the slow ones first
    order = {'params': 0, 'meas': 1, 'dist': 2, 'lik': 3}
    items.sort(key=lambda i: order[i[0]])
    c.extra['distributions'] = len(dists)
    c.extra['measurements'] = len(Measurement.instances)
    c.extra['likelihood_definitions'] = len(liks)

    def do(cs, it):
        {'dist': do_dist, 'meas': do_meas, 'params': do_params, 'lik': lik_item}[it[0]](cs, it[1])
        cs.sample(repr(it))
    mc.parallel(c, do, items, chunk=1)
