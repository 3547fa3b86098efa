"""C23: the robust optimisers.

The optimiser is the environment: scipy.optimize.minimize and MIGRAD are replaced
by scripts enumerating every sequence of outcomes (converged or not; function
value lower than / equal to / higher than the best so far / nan; endpoint) up to
methods x tries calls. Every sequence is executed on minimize_robust and
maximize_robust. In addition, the real optimisers are run on a product of
functions with known minimum x starting points x methods."""
import itertools
import numpy as np
import mc
import flavio
from flavio.math import optimize as fo
import scipy.optimize

# outcome alphabet: (success, kind of function value)
OUT = [(True, 'lower'), (False, 'lower'), (False, 'higher'), (False, 'equal'), (True, 'higher'), (False, 'nan')]
QUICK = OUT[:5]


class Obj(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def run_script(cc, it):
    methods, tries, seq, sign, args = it
    x0 = [1., 2.]
    f0 = 13.                                # value (of the function minimised) at the start
    log = []
    st = dict(n=0)
    best = dict(f=f0, x=tuple(x0), r=None)
    produced = []
    bad = []

    def user(x, *a):
        if tuple(a) != tuple(args):
            bad.append('arguments %r' % (a,))
        return sign * f0

    def outcome(method, fun, start, a, opts):
        v = fun(np.asarray(start, float), *a)
        if abs(v - f0) > 1e-12:
            bad.append('wrong sign or arguments of the target function: %r' % v)
        k = st['n']
        st['n'] += 1
        ok, kind = seq[k] if k < len(seq) else (True, 'lower')
        f = {'lower': best['f'] - 1., 'higher': best['f'] + 1., 'equal': best['f'], 'nan': float('nan')}[kind]
        r = scipy.optimize.OptimizeResult()
        r.success, r.fun, r.x, r.nfev = ok, f, np.array([100. + k, 200. + k]), 1
        log.append((method, tuple(float(t) for t in start), tuple(best['x'])))
        produced.append((ok, f, tuple(r.x), r))
        if not ok and f < best['f']:
            best.update(f=f, x=tuple(r.x), r=r)
        return r

    def minimize(fun, x0, args=(), method=None, **kw):
        return outcome(method, fun, x0, args if isinstance(args, tuple) else (args,), kw.get('options') or {})

    class Minuit(object):
        LEAST_SQUARES = 1.
        LIKELIHOOD = .5

        def __init__(self, f, *start, **kw):
            self.f = f
            self.start = start[0] if len(start) == 1 else start
            self.print_level = 0

        def migrad(self, *a, **k):
            r = outcome('MIGRAD', lambda x, *a: self.f(x), self.start, (), {})
            self.values = r.x
            self.valid = r.success
            self.fval = r.fun
            self.nfcn = 1
            self.fmin = Obj(is_valid=r.success, fval=r.fun, nfcn=1)
            return self
    import iminuit
    save = fo.minimize if hasattr(fo, 'minimize') else None, scipy.optimize.minimize, iminuit.Minuit
    fo.minimize = scipy.optimize.minimize = minimize
    iminuit.Minuit = Minuit
    key = 'script/%r' % (it,)
    try:
        f = fo.minimize_robust if sign > 0 else fo.maximize_robust
        start = list(x0)
        kw = {}
        if methods is not None:
            kw['methods'] = methods
        if tries is not None:
            kw['tries'] = tries
        res = f(user, start, args=args, **kw)
    finally:
        fo.minimize, scipy.optimize.minimize, iminuit.Minuit = save
    cc.state(); cc.trace(); cc.trans(len(log))
    cc.expect(not bad, key, '%r' % bad[:2], seq=seq)
    cc.expect(start == x0, key, 'the starting point of the caller was modified: %r' % start)
    M = methods or ('SLSQP', 'MIGRAD', 'BFGS', 'Nelder-Mead')
    T = 3 if tries is None else tries
    # expected protocol
    order = [m for t in range(T) for m in M]
    nexp = next((i + 1 for i, (ok, k) in enumerate(seq[:len(order)]) if ok), min(len(order), len(seq)) if len(seq) >= len(order) else len(seq) + 1)
    cc.expect([l[0] for l in log] == order[:len(log)], key, 'methods were tried in the order %r' % [l[0] for l in log])
    cc.expect(len(log) == nexp, key, '%d optimisations were run, expected %d (stop at the first that converges, else all tries)' % (len(log), nexp))
    for i, (m, s, b) in enumerate(log):
        cc.expect(s == b, key, 'try %d (%s) started from %r instead of the best endpoint so far %r' % (i, m, s, b), seq=seq)
    if produced and produced[-1][0]:
        want = produced[-1]
    else:
        cand = [p for p in produced if best['r'] is not None and p[3] is best['r']]
        want = cand[0] if cand else None
    if want is not None:
        cc.expect(tuple(res.x) == want[2] and res.success == want[0], key, 'returned x=%r success=%r, best result x=%r success=%r' % (tuple(res.x), res.success, want[2], want[0]), seq=seq)
        cc.expect(res.fun == sign * want[1], key, 'returned function value %r, should be %r' % (res.fun, sign * want[1]), seq=seq)
    else:
        cc.expect(not res.success, key, 'a failed optimisation is reported as success')


def real(cc, it):
    fname, start, methods, sign, a = it
    n = len(start)
    c = np.array([2., -1., .5])[:n]

    def f(x, *args):
        s = args[0] if args else 0.
        d = np.asarray(x, float) - c - s
        if fname == 'quad':
            return float(np.sum(d**2 * np.arange(1, n + 1)))
        if fname == 'corr':
            return float(np.sum(d**2) + (.8 * d[0] * d[-1] if n > 1 else 0))
        if fname == 'quartic':
            return float(np.sum(d**2 + d**4))
        return float(np.sum(np.cosh(d)))
    fun = f if sign > 0 else (lambda x, *a: -f(x, *a))
    rob = fo.minimize_robust if sign > 0 else fo.maximize_robust
    st = list(start)
    kw = {} if methods is None else dict(methods=methods)
    res = rob(fun, st, args=a, **kw)
    s = a[0] if a else 0.
    key = 'real/%r' % (it,)
    cc.state(); cc.trace()
    tol = 2e-2 if fname in ('quartic', 'cosh') else 5e-3
    cc.expect(bool(res.success) and np.all(np.abs(np.asarray(res.x) - c - s) < tol), key, 'optimum %r, should be %r' % (res.x, list(c + s)))
    cc.expect(abs(res.fun - fun(res.x, *a)) <= 1e-12, key, 'function value %r at the endpoint is %r' % (res.fun, fun(res.x, *a)))
    cc.expect(st == list(start), key, 'starting point modified')


def run(c):
    alpha = OUT if c.thorough else QUICK
    tasks = []
    confs = [(('SLSQP',), 1), (('SLSQP',), 3), (('MIGRAD',), 2), (('BFGS', 'MIGRAD'), 2), (('MIGRAD', 'Nelder-Mead'), 1), (None, 1), (('A', 'B', 'C'), 1)] + ([(None, 2), (None, None)] if c.thorough else [(None, None)])
    for m, t in confs:
        n = len(m or 'abcd') * (3 if t is None else t)
        depth = min(n, 5 if c.thorough else 4)
        seqs = set()
        for s in itertools.product(alpha, repeat=depth):
            k = next((i + 1 for i, (ok, kind) in enumerate(s) if ok), depth)
            seqs.add(s[:k] + (() if s[k - 1][0] or k == n else ()))
        for s in sorted(seqs):
            if not s[-1][0] and len(s) < n:
                s = s + ((False, 'higher'),) * (n - len(s))       # never converges
            for sign in (1, -1):
                for args in [(), (3., 'x')]:
                    if args and not c.thorough and len(s) > 3:
                        continue
                    tasks.append((m, t, s, sign, args))
    # long runs: everything fails up to the last call, which is improved/converges
    for k in range(12):
        for kind in alpha:
            tasks.append((None, None, ((False, 'higher'),) * k + (kind,) + ((False, 'equal'),) * (11 - k), 1, ()))
    mc.parallel(c, run_script, sorted(set(tasks), key=str), chunk=64)
    ft = []
    for fname in ('quad', 'corr', 'quartic', 'cosh'):
        for start in [(0.,), (5.,), (0., 0.), (3., -4.), (1., 1., 1.)]:
            for m in [None, ('SLSQP',), ('MIGRAD',), ('BFGS',), ('Nelder-Mead',), ('Nelder-Mead', 'SLSQP')]:
                for sign in (1, -1):
                    for a in [(), (1.,)]:
                        ft.append((fname, start, m, sign, a))
    mc.parallel(c, real, ft, chunk=8)
    c.sample("methods=('BFGS','MIGRAD'), outcomes (failed, lower), (failed, higher), (converged, lower)")
