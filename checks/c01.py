"""C01: a constraint collection is a map name -> latest constraint.

Exhaustive exploration of all operation sequences (to a depth bound, plus
deeper sequences over a reduced alphabet) of the real collection classes,
against a last-writer-wins reference map.  After every operation of every
sequence all queries are compared."""
import itertools, copy, warnings
import numpy as np
import mc
from refdist import *

NAMES = None


def build_ops(fl, kind):
    """(label, apply(real) , apply(model)) ; model: dict name->(refdist, idx, token)"""
    from flavio.statistics import probability as pr
    A, B, C = NAMES[kind]
    tok = itertools.count()

    def fake(d, t, n):
        # deterministic stand-in for the random generator: a unique value per
        # (constraint, position, draw)
        def get_random(size=None, _t=t, _n=n):
            if _n == 1:
                base = 1000. * _t
                return base if size is None else base + np.arange(size)
            base = 1000. * _t + 100. * np.arange(_n)
            return base if size is None else base[None, :] + np.arange(size)[:, None]
        d.get_random = get_random
        return d

    def add(names, mk, ref, aslist=True):
        def real(c, t):
            d = fake(mk(), t, ref.n)
            c.add_constraint(list(names), d)
            return c
        def model(m, t):
            for i, n in enumerate(names):
                m.pop(n, None)
            for i, n in enumerate(names):
                m[n] = (ref, i, t, tuple(names))
            return m
        return real, model

    ops = []
    def op(label, pair):
        ops.append((label, pair[0], pair[1]))

    s2 = [[0.04, 0.01], [0.01, 0.09]]
    s2b = [[0.25, -0.1], [-0.1, 0.16]]
    s3 = [[0.04, 0.01, 0.], [0.01, 0.09, 0.02], [0., 0.02, 0.16]]
    op('N(a)', add([A], lambda: pr.NormalDistribution(1., .2), RNormal(1., .2)))
    op('Asym(b)', add([B], lambda: pr.AsymmetricNormalDistribution(2., .3, .5), RAsym(2., .3, .5)))
    op('U(c)', add([C], lambda: pr.UniformDistribution(.5, 1.), RUniform(.5, 1.)))
    op('MVN(a,b)', add([A, B], lambda: pr.MultivariateNormalDistribution([.9, 1.8], s2), RMVN([.9, 1.8], s2)))
    op('MVN(c,a)', add([C, A], lambda: pr.MultivariateNormalDistribution([.4, 1.2], s2b), RMVN([.4, 1.2], s2b)))
    op('MVN(b,c,a)', add([B, C, A], lambda: pr.MultivariateNormalDistribution([2.1, .6, 1.1], s3),
                         RMVN([2.1, .6, 1.1], s3)))
    xi = [np.linspace(0, 3, 4), np.linspace(-1, 3, 5)]
    y = np.arange(1, 21).reshape(4, 5) % 7 + 0.5
    op('MVNum(b,c)', add([B, C], lambda: pr.MultivariateNumericalDistribution(xi, y), RMVNum(xi, y)))

    def setstr(name, s, ref):
        def real(c, t):
            c.set_constraint(name, s)
            return c
        def model(m, t):
            m.pop(name, None)
            m[name] = (ref, 0, None, (name,))
            return m
        return real, model
    op("set(a,'1.5±0.1')", setstr(A, '1.5 ± 0.1', RNormal(1.5, .1)))
    op("set(b,'3')", setstr(B, '3', RDelta(3.)))

    def rem(name):
        def real(c, t):
            c.remove_constraint(name)
            return c
        def model(m, t):
            m.pop(name, None)
            return m
        return real, model
    for n, l in ((A, 'a'), (B, 'b'), (C, 'c')):
        op('del(%s)' % l, rem(n))

    def cp_real(c, t):
        # continue with the copy; damage the original
        d = c.copy()
        for n in (A, B, C):
            c.remove_constraint(n)
        c.add_constraint([A], pr.DeltaDistribution(77.))
        c.add_constraint([B, C], pr.MultivariateNormalDistribution([7., 8.], np.eye(2)))
        return d
    op('copy', (cp_real, lambda m, t: m))

    def copy_discard(c, t):
        # continue with the original; damage the copy
        d = c.copy()
        d.add_constraint([A], pr.DeltaDistribution(77.))
        d.add_constraint([B, C], pr.MultivariateNormalDistribution([7., 8.], np.eye(2)))
        d.remove_constraint(A)
        return c
    op('copy-and-modify-copy', (copy_discard, lambda m, t: m))

    def reload_(c, t):
        d = c.get_yaml_dict()
        if kind == 'measurement':
            d2 = c.get_yaml_dict(pname='observables')
            return type(c).from_yaml_dict(d2, pname='observables')
        return type(c).from_yaml(c.get_yaml())
    def reload_model(m, t):
        return {k: (v[0], v[1], None, v[3]) for k, v in m.items()}
    op('dump+load', (reload_, reload_model))

    # one distribution object used for two names; list argument reused
    def shared_real(c, t):
        d = pr.NormalDistribution(.7, .1)
        l = [A]
        c.add_constraint(l, d)
        l[0] = C
        c.add_constraint(l, d)
        l[0] = 'unrelated'
        return c
    def shared_model(m, t):
        m.pop(A, None); m.pop(C, None)
        m[A] = (RNormal(.7, .1), 0, None, (A,))
        m[C] = (RNormal(.7, .1), 0, None, (C,))
        return m
    op('same-object(a),(c)', (shared_real, shared_model))
    return ops


class OneFail(object):
    """report at most one violation per explored history"""
    class Stop(Exception):
        pass

    def __init__(self, c):
        self.c = c

    def expect(self, cond, key, what, **rp):
        self.c.trans()
        if not cond:
            self.c.fail(key, what, **rp)
            raise self.Stop


POINTS = [(1.05, 1.9, .45), (1.5, 3., 1.2), (.7, -.5, .7), (77., 7., 8.)]


def compare(c, real, model, kind, hist):
    """all queries of `real` against the reference map"""
    A, B, C = NAMES[kind]
    key = '>'.join(hist)
    rp = dict(kind=kind, history=list(hist))
    live = set(model)
    names = list(real.all_parameters)
    c.expect(sorted(map(str, names)) == sorted(map(str, live)) and len(names) == len(set(names)),
             '%s/%s/names' % (kind, key), 'names %s, expected %s' % (names, sorted(map(str, live))), **rp)
    cen = real.get_central_all()
    c.expect(set(cen) == live, '%s/%s/central-keys' % (kind, key), 'central keys %s' % sorted(map(str, cen)), **rp)
    for n in live:
        r, i, t, grp = model[n]
        for v in (cen.get(n), real.get_central(n)):
            c.expect(v is not None and close(v, r.central[i]), '%s/%s/central/%s' % (kind, key, n),
                     'central %s, expected %s' % (v, r.central[i]), **rp)
    for n in (A, B, C):
        if n not in live:
            try:
                v = real.get_central(n)
            except Exception:
                v = None
            c.expect(v is None, '%s/%s/central-removed/%s' % (kind, key, n),
                     'central value %s for an unconstrained name' % v, **rp)
    # errors
    if not any(v[0].err is None for v in model.values()):
        e = real.get_1d_errors_rightleft()
        c.expect(set(e) == live, '%s/%s/err-keys' % (kind, key), 'error keys', **rp)
        for n in live & set(e):
            r, i, t, grp = model[n]
            c.expect(close(e[n][0], r.err[i][0], 1e-6) and close(e[n][1], r.err[i][1], 1e-6),
                     '%s/%s/err/%s' % (kind, key, n), 'errors %s, expected %s' % (e[n], r.err[i]), **rp)
    # random draws: every name gets the component of its own constraint
    for size in (None, 1, 2, 3):
        rnd = real.get_random_all(size=size)
        c.expect(set(rnd) == live, '%s/%s/rnd-keys' % (kind, key), 'random keys', **rp)
        for n in live & set(rnd):
            r, i, t, grp = model[n]
            shp = np.shape(rnd[n])
            okshape = shp == () if size is None else shp == (size,)
            c.expect(okshape, '%s/%s/rnd-shape/%s/%s' % (kind, key, n, size), 'shape %s' % (shp,), **rp)
            if t is not None and okshape:
                want = 1000. * t + 100. * i
                want = want if size is None else want + np.arange(size)
                c.expect(np.all(np.asarray(rnd[n]) == want), '%s/%s/rnd/%s/%s' % (kind, key, n, size),
                         'draw %s, expected %s' % (rnd[n], want), **rp)
    # log-probabilities
    subsets = [()] + [(n,) for n in (A, B, C)] + [(A, B), (B, C), (A, C), (A, B, C)]
    for ip, pt in enumerate(POINTS):
        x = dict(zip((A, B, C), pt))
        for excl in subsets:
            keepn = [n for n in live if n not in excl]
            for delta in ((False, True) if ip == 0 else (False,)):
                # group live, kept names by their constraint
                groups = {}
                for n in keepn:
                    r, i, t, grp = model[n]
                    groups.setdefault((id(r), grp), (r, []))[1].append((i, n))
                want = 0.
                for (rid, grp), (r, mem) in groups.items():
                    mem = sorted(mem)
                    keep = [i for i, n in mem]
                    want += r.logpdf([x[n] for i, n in mem], keep)
                    if delta:
                        want -= r.logpdf([r.central[i] for i in keep], keep)
                d = real.get_logprobability_all(x, exclude_parameters=list(excl), delta=delta)
                got = float(sum(d.values()))
                c.expect(close(got, want, 1e-7, 1e-9), '%s/%s/logprob/%s/%d/%s' % (kind, key, excl, ip, delta),
                         'log-probability %r, expected %r' % (got, want), point=pt, exclude=list(map(str, excl)), **rp)
        if ip < 2:
            for n in live:
                r, i, t, grp = model[n]
                for delta in (False, True):
                    got = float(np.ravel(real.get_logprobability_single(n, x[n], delta=delta))[0])
                    want = r.logpdf([x[n]], [i])
                    if delta:
                        want -= r.logpdf([r.central[i]], [i])
                    c.expect(close(got, want, 1e-7, 1e-9), '%s/%s/single/%s/%s' % (kind, key, n, delta),
                             'single log-probability %r, expected %r' % (got, want), **rp)


def run(c):
    import flavio
    from flavio.classes import ParameterConstraints, Constraints, Measurement
    global NAMES
    NAMES = {'parameters': ('va', 'vb', 'vc'), 'measurement': ('eps_K', ('<P5p>(B0->K*mumu)', 1.1, 6.), 'DeltaM_s')}
    make = {'parameters': lambda: ParameterConstraints(),
            'measurement': lambda: Measurement('verif measurement')}

    def run_seq(cs, item):
        kind, prefix, depth = item
        ops = build_ops(flavio, kind)
        # replay prefix then explore all continuations depth-first; each node
        # re-executes its whole history on a fresh collection
        def rec(hist):
            real, model = make[kind](), {}
            labels = []
            for step, j in enumerate(hist):
                real = ops[j][1](real, step + 1)
                model = ops[j][2](dict(model), step + 1)
                labels.append(ops[j][0])
            cs.state()
            cs.trace()
            one = OneFail(cs)
            try:
                compare(one, real, model, kind, labels)
            except OneFail.Stop:
                pass
            except Exception as e:
                if not mc.from_repo(e):
                    raise
                cs.fail('%s/%s/exception' % (kind, '>'.join(labels)), mc.exc_text(e), kind=kind, history=labels)
            if len(cs.samples) < 2 and len(hist) == depth:
                cs.sample(dict(kind=kind, history=labels))
            if len(hist) < depth:
                for j in range(len(ops)):
                    rec(hist + (j,))
        rec(tuple(prefix))

    nops = len(build_ops(flavio, 'parameters'))
    depth_p, depth_m = (3, 2) if not c.thorough else (4, 3)
    items = [('parameters', (i, j), depth_p) for i in range(nops) for j in range(nops)]
    items += [('measurement', (i,), depth_m) for i in range(nops)]
    c.extra['operation_alphabet'] = nops
    c.extra['sequence_depth'] = depth_p
    mc.parallel(c, run_seq, items, chunk=2)
    c.assumptions.append('parameter names are drawn from 3 (symmetric) names; distribution kinds from a fixed set')
