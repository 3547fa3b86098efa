"""C24: SM and experimental covariances and the FastLikelihood.

Small worlds (parameters, observables with linear predictions, normally
distributed measurements) for which the covariances are known in closed form; the
random generator is replaced by an enumeration of a quadrature lattice.
 (A) experimental central values and covariance for every way of covering up to
     three observables by up to three measurements (in any order, with foreign
     observables), against the weighted average in closed form;
 (B) SM covariance for every order of observables x varied parameters;
 (C) every sequence of compute/get/save/load/load_dict (files in the order of the
     observables, permuted, with additional, with missing observables) on both
     covariance objects against a model of the cache;
 (D) every sequence of make_measurement/load on a FastLikelihood: pseudo
     measurement and likelihood values."""
import os
import itertools
import pickle
import tempfile
import warnings
import numpy as np
import mc
import rng
import flavio
from flavio.classes import Observable, Prediction, Parameter, Measurement, ParameterConstraints
from flavio.statistics.probability import NormalDistribution, MultivariateNormalDistribution
from flavio.statistics.likelihood import SMCovariance, MeasurementCovariance, MeasurementLikelihood, FastLikelihood

PN = ['vp0', 'vp1', 'vp2']
PC = np.array([1., -2., 30.])
PCOV = np.array([[.04, .03, 0], [.03, .09, 0], [0, 0, 4.]])
A = np.array([[1., .5, 0.], [0., 1e-9, 2e-10], [300., 0., -40.], [0., 1., .1]])
CONST = np.array([0., 5e-9, 2000., 0.])
O = ['vobs0', 'vobs1', ('vobs2', 1.5), 'vobsx']
TOL = 4e-3


def world():
    if 'vp0' in Parameter.instances:
        return ParameterConstraints_()
    for p in PN:
        Parameter(p)
    Observable('vobs0')
    Prediction('vobs0', lambda wc, par: float(A[0] @ [par[p] for p in PN]))
    Observable('vobs1')
    Prediction('vobs1', lambda wc, par: float(CONST[1] + A[1] @ [par[p] for p in PN]))
    Observable('vobs2', arguments=['q'])
    Prediction('vobs2', lambda wc, par, q: float(CONST[2] + A[2] @ [par[p] for p in PN]) * q / 1.5)
    Observable('vobsx')
    Prediction('vobsx', lambda wc, par: float(A[3] @ [par[p] for p in PN]))
    return ParameterConstraints_()


def ParameterConstraints_():
    P = ParameterConstraints()
    P.add_constraint(PN[:2], MultivariateNormalDistribution(PC[:2], PCOV[:2, :2]))
    P.add_constraint(PN[2:], NormalDistribution(PC[2], 2.))
    return P


SD = np.array([.3, 4e-10, 60., 2.])


def meas_pars(k, idx):
    """central values and covariance of the k-th measurement of the observables idx"""
    idx = list(idx)
    sd = SD[idx] * (1 + .25 * k)
    rho = np.array([[1., .6, -.3, .4], [.6, 1., .2, .1], [-.3, .2, 1., .1], [.4, .1, .1, 1.]]) if k % 2 == 0 else \
        np.array([[1., -.5, .2, .3], [-.5, 1., .4, .2], [.2, .4, 1., -.6], [.3, .2, -.6, 1.]])
    cen = np.array([.2, 4e-9, 1000., -3.])[idx] + SD[idx] * np.array([.4, -.3, .5, .1])[idx] * (k + 1)
    return cen, rho[np.ix_(idx, idx)] * np.outer(sd, sd)


def add_meas(k, idx):
    cen, cov = meas_pars(k, idx)
    m = Measurement('verif m%d' % k)
    if len(idx) == 1:
        m.add_constraint([O[idx[0]]], NormalDistribution(cen[0], cov[0, 0] ** .5))
    else:
        m.add_constraint([O[i] for i in idx], MultivariateNormalDistribution(cen, cov))
    return m.name


def blue(cover, order):
    """weighted average of the measurements (marginalised over foreign observables)"""
    W = np.zeros((len(order),) * 2)
    Wx = np.zeros(len(order))
    for k, idx in enumerate(cover):
        cen, cov = meas_pars(k, idx)
        keep = [j for j, i in enumerate(idx) if i in order]
        if not keep:
            continue
        pos = [order.index(idx[j]) for j in keep]
        w = np.linalg.inv(cov[np.ix_(keep, keep)])
        W[np.ix_(pos, pos)] += w
        Wx[pos] += w @ cen[keep]
    C = np.linalg.inv(W)
    return C @ Wx, C


def sm_cov(order, vary):
    V = PCOV.copy()
    for i, p in enumerate(PN):
        if p not in vary:
            V[i] = 0
            V[:, i] = 0
    a = A[list(order)]
    return a @ V @ a.T


def closem(x, y, sd, tol=TOL):
    x = np.atleast_1d(np.asarray(x, float)) / (np.outer(sd, sd) if np.ndim(y) == 2 else sd)
    y = np.asarray(y, float) / (np.outer(sd, sd) if np.ndim(y) == 2 else sd)
    return x.size == y.size and bool(np.all(np.abs(x.reshape(y.shape) - y) <= tol))


def clean():
    for n in list(Measurement.instances):
        if n.startswith('verif ') or n.startswith('Pseudo'):
            Measurement.del_instance(n)


def covers(thorough):
    """(cover, order): measurements with the observables they constrain; order of the observables"""
    sub = [s for n in (1, 2, 3) for s in itertools.combinations(range(4), n)]
    sub += [(1, 0), (2, 0), (2, 1, 0), (3, 0)]
    for n in (1, 2, 3):
        for cover in itertools.product(sub, repeat=n):
            if n == 3 and not thorough and (sum(len(s) for s in cover) > 6 or len(cover[0]) > len(cover[1]) + 1):
                continue
            got = set().union(*cover) - {3}
            for m in (1, 2, 3):
                for order in itertools.permutations(sorted(got), m):
                    if any(not set(s) & set(order) for s in cover):
                        continue
                    if not thorough and n == 3 and (order != tuple(sorted(order, reverse=True)) or sum(map(sum, cover)) % 3):
                        continue
                    yield cover, order


def part_a(cc, chunk):
    world()
    for cover, order in chunk:
        clean()
        names = [add_meas(k, s) for k, s in enumerate(cover)]
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            ml = MeasurementLikelihood([O[i] for i in order], include_measurements=names)
            with rng.scripted(rng.Script(mode='walsh')):
                cen, cov = MeasurementCovariance(ml).get(N=2048)
        rc, rC = blue(cover, list(order))
        sd = np.sqrt(np.diag(rC))
        key = 'exp/%s/%s' % (cover, order)
        cc.state()
        cc.trans()
        cc.trace()
        if not closem(cen, rc, sd) or not closem(cov, rC, sd):
            cc.fail(key, 'central values/covariance %r %r, weighted average %r %r' % (np.asarray(cen).tolist(), np.asarray(cov).tolist(), rc.tolist(), rC.tolist()),
                    measurements=cover, observables=order)
    clean()


def part_b(cc, it):
    order, vary, threads = it
    P = world()
    obs = [O[i] for i in order]
    with rng.scripted(rng.Script(mode='walsh')):
        got = SMCovariance(obs, vary_parameters=vary, par_obj=P).get(N=2048, threads=threads)
    v = PN if vary == 'all' else vary
    ref = sm_cov(order, v)
    sd = np.sqrt(np.diag(sm_cov(order, PN)))
    cc.state()
    cc.trans()
    cc.trace()
    if not closem(got, ref, sd):
        cc.fail('sm/%s/%s' % (order, vary), 'SM covariance %r, expected %r' % (np.asarray(got).tolist(), ref.tolist()), observables=order, vary=vary)


# (C) --------------------------------------------------------------------------
def fake(order, tag):
    """recognisable covariance/central values for loading: entry depends on the pair"""
    a = np.array([[(i + 1) * (j + 1) * tag + (50 * tag if i == j else 0.) for j in order] for i in order])
    c = np.array([(i + 1) * 1000. * tag for i in order])
    return c, a


FILES = {'same': lambda o: list(o), 'perm': lambda o: list(o)[::-1], 'more': lambda o: [3] + list(o)[1:] + [x for x in range(3) if x not in o] + list(o)[:1],
         'less': lambda o: list(o)[:-1] or [3]}
OPS_C = ['get', 'getc', 'getN', 'save', 'same', 'perm', 'more', 'less', 'dict', 'list']


def eqm(x, y):
    return np.shape(np.squeeze(x)) == np.shape(np.squeeze(y)) and bool(np.all(np.abs(np.asarray(x) - np.asarray(y)).ravel() <= 1e-12 * np.max(np.abs(y)))) \
        if np.shape(np.squeeze(x)) == np.shape(np.squeeze(y)) else False


def part_c(cc, it):
    kind, order, seqs = it
    P = world()
    clean()
    obs = [O[i] for i in order]
    d = tempfile.mkdtemp(prefix='cov-', dir=os.environ.get('VERIF_SCRATCH'))
    names = [add_meas(0, tuple(order)), add_meas(1, (0,) if 0 in order else tuple(order))]
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ml = MeasurementLikelihood(obs, include_measurements=names)

    def new():
        return SMCovariance(obs, vary_parameters=PN, par_obj=P) if kind == 'sm' else MeasurementCovariance(ml)

    def val(r):
        return (None, np.asarray(r, float)) if kind == 'sm' else (np.asarray(r[0], float), np.asarray(r[1], float))

    def fdict(name, tag):
        o = FILES[name](order)
        c, a = fake(o, tag)
        if len(o) == 1 and name == 'same':
            c, a = c[0], np.array(a[0, 0])
        f = dict(observables=[O[i] for i in o], covariance=a)
        if kind == 'exp':
            f['central'] = c
        return f

    def computed(N, pos):
        # the script restarts for each computation: a fixed value per N
        with rng.scripted(rng.Script(mode='walsh')):
            x = new()
            return val(x.get(N, force=True) if kind == 'exp' else x.get(N=N, force=True))
    REFV = {N: computed(N, 0) for N in (1024, 3072)}
    Nd = {'sm': 100, 'exp': 5000}[kind]

    for seq in seqs:
        x = new()
        cache = None
        hist = []
        for n, op in enumerate(seq):
            hist.append(op)
            err = exp = got = None
            try:
                with warnings.catch_warnings(record=True), rng.scripted(rng.Script(mode='walsh')):
                    if op == 'get':
                        got = val(x.get(1024, force=True) if kind == 'exp' else x.get(N=1024, threads=1, force=True))
                        exp = cache = REFV[1024]
                    elif op in ('getc', 'getN'):
                        got = val(x.get(N=3072, force=False))
                        if cache is None:
                            cache = REFV[3072]
                        exp = cache
                        if op == 'getN':
                            got = val(x.get(N=1024, force=False))
                    elif op == 'save':
                        try:
                            x.save(d + '/s.p')
                        except ValueError:
                            if cache is not None:
                                raise
                            continue
                        if cache is None:
                            cc.fail('save/' + '_'.join(hist), 'saved although nothing has been computed')
                            break
                        with open(d + '/s.p', 'rb') as f:
                            data = pickle.load(f)
                        y = new()
                        y.load(d + '/s.p')
                        got = val(y.get(force=False))
                        exp = cache
                        if list(data['observables']) != obs:
                            cc.fail('save/' + '_'.join(hist), 'observables saved: %r' % (data['observables'],))
                    else:
                        nme = op if op in FILES else 'perm'
                        f = fdict(nme, n + 1)
                        if op == 'list':
                            f = {k: (np.asarray(v).tolist() if k != 'observables' else v) for k, v in f.items()}
                        try:
                            if op in ('dict', 'list'):
                                x.load_dict(f)
                            else:
                                with open(d + '/l.p', 'wb') as g:
                                    pickle.dump(f, g)
                                x.load(d + '/l.p')
                        except ValueError:
                            if nme != 'less':
                                raise
                            continue
                        if nme == 'less':
                            cc.fail('%s/%s/%s' % (kind, order, '_'.join(hist)), 'covariance without all observables accepted', history=hist)
                            break
                        got = val(x.get(force=False))
                        c0, a0 = fake(order, n + 1)
                        exp = cache = (None if kind == 'sm' else c0, a0)
            except Exception as e:
                if not mc.from_repo(e):
                    raise
                err = mc.exc_text(e)
            cc.trans()
            key = '%s/%s/%s' % (kind, order, '_'.join(hist))
            if err:
                cc.fail(key, 'history %s: %s' % (' '.join(hist), err), history=hist, observables=order)
                break
            if got is not None and not (eqm(got[1], exp[1]) and (kind == 'sm' or eqm(got[0], exp[0]))):
                cc.fail(key, 'history %s: %r, expected %r' % (' '.join(hist), got, exp), history=hist, observables=order)
                break
        cc.state()
        cc.trace()
    clean()


# (D) --------------------------------------------------------------------------
OPS_D = ['mk', 'mkN', 'force', 'forceexp', 'lsm', 'lexp', 'other']


def logN(x, m, C):
    d = np.asarray(x) - np.asarray(m)
    s = np.sqrt(np.diag(C))
    R = C / np.outer(s, s)
    z = d / s
    return -.5 * z @ np.linalg.solve(R, z) - .5 * np.linalg.slogdet(R)[1] - np.sum(np.log(s)) - len(z) / 2 * np.log(2 * np.pi)


def part_d(cc, it):
    order, nuis, seq = it
    P = world()
    clean()
    for n in list(getattr(FastLikelihood, 'instances', {})):
        if n.startswith('verif'):
            FastLikelihood.del_instance(n)
    obs = [O[i] for i in order]
    names = [add_meas(0, tuple(order)), add_meas(1, (order[0],))]
    d = tempfile.mkdtemp(prefix='fast-', dir=os.environ.get('VERIF_SCRATCH'))
    key = 'fast/%s/%s/%s' % (order, nuis, '_'.join(seq))
    vary = PN if nuis == 'all' else nuis
    sm = ex = None
    sd = np.sqrt(np.diag(sm_cov(order, PN) + blue([tuple(order), (order[0],)], list(order))[1]))
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        L = FastLikelihood('verif fast', par_obj=P, nuisance_parameters=nuis, fit_parameters=['vp0'], observables=obs, include_measurements=names)
        cc.expect(_raises(lambda: L.log_likelihood(P.get_central_all(), None)), key + '/nomake', 'likelihood without measurement')
        for n, op in enumerate(seq):
            tagged = n + 2
            with rng.scripted(rng.Script(mode='walsh')):
                if op in ('lsm', 'lexp'):
                    o = [3] + list(order)[::-1]
                    c, a = fake(o, tagged)
                    # scale to the size of the observables
                    s = np.array([SD[i] for i in o])
                    f = dict(observables=[O[i] for i in o], covariance=a * np.outer(s, s) * 1e-2, central=c * s * 1e-3)
                    with open(d + '/f.p', 'wb') as g:
                        pickle.dump(f, g)
                    (L.sm_covariance if op == 'lsm' else L.exp_covariance).load(d + '/f.p')
                    c, a = fake(order, tagged)
                    s = np.array([SD[i] for i in order])
                    a, c = a * np.outer(s, s) * 1e-2, c * s * 1e-3
                    if op == 'lsm':
                        sm = (a, 1e-9)
                    else:
                        ex = (c, a, 1e-9)
                    continue
                if op == 'other':
                    # another likelihood with its own covariances does not interfere
                    L2 = FastLikelihood('verif fast 2', par_obj=P, nuisance_parameters=[], observables=obs[:1], include_measurements=names)
                    L2.make_measurement(N=1024, Nexp=1024)
                    continue
                force, fexp = op == 'force', op == 'forceexp'
                L.make_measurement(N=1024, Nexp=2048, force=force, force_exp=fexp)
            if sm is None or force:
                sm = (sm_cov(order, vary), TOL)
            if ex is None or fexp:
                ex = blue([tuple(order), (order[0],)], list(order)) + (TOL,)
            cc.state()
            cc.trans()
            cc.trace()
            pm = L.pseudo_measurement
            con = pm._parameters
            cc.expect(sorted(map(str, pm.all_parameters)) == sorted(map(str, obs)), key + '/observables', 'pseudo measurement of %r' % (pm.all_parameters,))
            dist = con[obs[0]][1]
            C = np.atleast_2d(np.asarray(dist.covariance if hasattr(dist, 'covariance') else dist.standard_deviation ** 2, float))
            m = np.atleast_1d(np.asarray(dist.central_value, float)).ravel()
            tol = max(sm[1], ex[2])
            s = np.sqrt(np.diag(sm[0] + ex[1]))
            cc.expect(closem(C, sm[0] + ex[1], s, tol) and closem(m, ex[0], s, tol), key, 'pseudo measurement after %s: %r %r, expected %r %r' % (
                ' '.join(seq[:n + 1]), m.tolist(), C.tolist(), ex[0].tolist(), (sm[0] + ex[1]).tolist()), history=seq[:n + 1])
            for dp in (np.zeros(3), np.array([.1, 0, -1.]), np.array([-.3, .2, 3.])):
                p = dict(zip(PN, PC + dp))
                pred = [Observable[o if isinstance(o, str) else o[0]].prediction_par(p, flavio.physics.eft._wc_sm, *(() if isinstance(o, str) else o[1:])) for o in obs]
                got = L.log_likelihood(p, flavio.physics.eft._wc_sm)
                ref = logN(pred, m, C)
                cc.trans()
                if np.ndim(got) != 0 or not abs(got - ref) <= 1e-8 * (1 + abs(ref)):
                    cc.fail(key + '/logl', 'log-likelihood %r, density of the pseudo measurement %r' % (got, ref), history=seq[:n + 1])
                for ex_ in range(len(order)):
                    if len(order) > 1:
                        keep = [j for j in range(len(order)) if j != ex_]
                        g2 = L.log_likelihood(p, flavio.physics.eft._wc_sm, exclude_observables=[obs[ex_]])
                        r2 = logN(np.array(pred)[keep], m[keep], C[np.ix_(keep, keep)])
                        cc.expect(abs(g2 - r2) <= 1e-8 * (1 + abs(r2)), key + '/excl', 'with an excluded observable: %r, expected %r' % (g2, r2), history=seq[:n + 1])
    clean()


def _raises(f):
    try:
        f()
    except ValueError:
        return True
    return False


def run(c):
    cov = list(covers(c.thorough))
    mc.parallel(c, part_a, [cov[i::32] for i in range(32)], chunk=1)
    c.extra['experimental'] = len(cov)
    items = []
    for n in (1, 2, 3):
        for order in itertools.permutations(range(4), n):
            for vary in ('all', PN, [], ['vp0'], ['vp2', 'vp1']):
                items.append((order, vary, 1))
    items.append(((2, 0), 'all', 2))
    mc.parallel(c, part_b, items)
    depth = 4 if c.thorough else 3
    seqs = [s for n in range(1, depth + 1) for s in itertools.product(OPS_C, repeat=n)]
    items = [(k, o, seqs[i::8]) for k in ('sm', 'exp') for o in ((0,), (1, 0), (2, 0, 1)) for i in range(8)]
    mc.parallel(c, part_c, items, chunk=1)
    c.extra['cache histories'] = len(seqs) * 6
    seqd = [s for n in range(1, depth + (0 if c.thorough else 1)) for s in itertools.product(OPS_D, repeat=n) if s[-1] not in ('lsm', 'lexp', 'other')]
    items = [(o, v, s) for o in ((0,), (2,), (1, 0), (2, 0, 1)) for v in ('all', ['vp0']) for s in seqd]
    mc.parallel(c, part_d, items)
    c.extra['FastLikelihood histories'] = len(items)
    c.sample('cover ((0,1),(1,),(2,0)), observables (2,0,1)')
    c.assumptions.append('covariances estimated from a quadrature lattice in place of random numbers agree within %g standard deviations squared' % TOL)
    c.assumptions.append('measurements of the worlds are normally distributed')
