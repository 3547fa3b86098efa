"""Controlled random number generator: every numpy.random entry point used at
all is replaced by one whose outcomes are enumerated, not sampled.  Each call
site (file, line) consumes its own Kronecker lattice (a systematic
enumeration of quantiles of the unit interval), mapped to
the requested distribution by the inverse CDF."""
import sys, contextlib
import numpy as np, scipy.stats as st

PRIMES = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37]


def vdc(start, n, base):
    """n points of the Kronecker lattice {k sqrt(base)}, k = start, ...: every
    arithmetic subsequence is equidistributed as well"""
    k = np.arange(start, start + n)
    return (k * (base ** .5 % 1) + .5) % 1


_perm = {}


def stratified(start, n, base):
    """blocks of 1024 points, each block being all of {(i+1/2)/1024} in an order
    without serial correlation"""
    out = np.empty(n)
    for j in range(n):
        b, i = divmod(start - 1 + j, 1024)
        if (b, base) not in _perm:
            _perm[b, base] = _RS(base * 1000 + b).permutation(1024)
        out[j] = (_perm[b, base][i] + .5) / 1024
    return out


_RS = np.random.RandomState
_popc = np.array([bin(i).count('1') & 1 for i in range(1024)])


def walsh(start, n, mask):
    """two-point design (one standard deviation up or down for a normal
    distribution) given by the Walsh function `mask`: over any 1024 consecutive
    points means vanish, variances are one and different functions uncorrelated,
    exactly"""
    i = np.arange(start, start + n) % 1024
    return np.where(_popc[i & (mask % 1023 + 1)], .8413447460685429, .15865525393145707)


class Script(np.random.RandomState):
    def __new__(cls, *a, **k):
        return np.random.RandomState.__new__(cls)

    def __init__(self, stream=None, mode='kronecker'):
        np.random.RandomState.__init__(self, 0)
        self.sites = {}
        self.calls = []
        self.points = {'kronecker': vdc, 'stratified': stratified, 'walsh': walsh}[mode]
        # every component of a multivariate call has its own permutation
        self.stride = 1 if mode == 'kronecker' else 8
        self.mode = mode
        self.stream = stream     # optional callable(site index, position, n) -> uniforms

    def u(self, size, depth=2, dim=1):
        f = sys._getframe(depth)
        while f.f_code.co_filename.endswith('rng.py') or 'scipy' in f.f_code.co_filename:
            f = f.f_back
        site = (f.f_code.co_filename, f.f_lineno)
        n = 1 if size is None else int(np.prod(size))
        if site not in self.sites:
            self.sites[site] = [len(self.sites), 1]
        s = self.sites[site]
        self.calls.append((site, size))
        idx, pos = s
        idx *= self.stride
        if self.mode == 'walsh' and n > 1:
            idx = len(self.calls) * 8       # every call has its own functions
        if dim > 1:
            m = n // dim
            v = np.stack([self._get(idx + k, pos, m) for k in range(dim)], axis=-1).ravel()
            s[1] += m
        else:
            v = self._get(idx, pos, n)
            s[1] += n
        if size is None:
            return v[0]
        return v.reshape(size)

    def _get(self, idx, pos, n):
        if self.stream is not None:
            return self.stream(idx, pos, n)
        # avoid the exact lattice ends
        base = PRIMES[idx % len(PRIMES)] if self.stride == 1 else idx + 2
        return np.clip(self.points(pos, n, base), 1e-12, 1 - 1e-12)

    # -- distributions
    def random_sample(self, size=None):
        return self.u(size)
    random = random_sample
    sample = random_sample
    ranf = random_sample

    def rand(self, *shape):
        return self.u(shape or None)

    def randn(self, *shape):
        return st.norm.ppf(self.u(shape or None))

    def uniform(self, low=0., high=1., size=None):
        low, high = np.asarray(low), np.asarray(high)
        if size is None and (low.ndim or high.ndim):
            size = np.broadcast(low, high).shape
        dim = np.prod(size) if size is not None and not np.ndim(size) and False else 1
        r = low + (high - low) * self.u(size, dim=dim)
        return r if size is not None else r[()]

    def normal(self, loc=0., scale=1., size=None):
        loc, scale = np.asarray(loc), np.asarray(scale)
        if size is None and (loc.ndim or scale.ndim):
            size = np.broadcast(loc, scale).shape
        if np.any(scale < 0):
            raise ValueError('scale < 0')
        r = loc + scale * st.norm.ppf(self.u(size))
        return r if size is not None else r[()]

    def standard_normal(self, size=None):
        return st.norm.ppf(self.u(size))

    def lognormal(self, mean=0., sigma=1., size=None):
        return np.exp(mean + sigma * st.norm.ppf(self.u(size)))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        r = np.floor(low + (high - low) * self.u(size)).astype(int)
        return r if size is not None else int(r)
    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        u = self.u(size)
        c = np.cumsum(np.ones(len(a)) / len(a) if p is None else np.asarray(p))
        i = np.minimum(np.searchsorted(c / c[-1], u, side='right'), len(a) - 1)
        return a[i]

    def standard_gamma(self, shape, size=None):
        return st.gamma.ppf(self.u(size), shape)

    def gamma(self, shape, scale=1., size=None):
        return scale * st.gamma.ppf(self.u(size), shape)

    def exponential(self, scale=1., size=None):
        return -scale * np.log1p(-self.u(size))

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn', tol=1e-8, **k):
        mean, cov = np.asarray(mean, float), np.asarray(cov, float)
        n = len(mean)
        sh = () if size is None else (tuple(size) if np.ndim(size) else (size,))
        sd = np.sqrt(np.diag(cov))
        L = np.linalg.cholesky(cov / np.outer(sd, sd)) * sd[:, None]
        z = st.norm.ppf(self.u(sh + (n,), dim=n))
        return mean + z @ L.T

    def permutation(self, x):
        return np.arange(x) if np.ndim(x) == 0 else np.asarray(x)

    def shuffle(self, x):
        pass

    def seed(self, *a, **k):
        pass


NAMES = ['random_sample', 'random', 'sample', 'ranf', 'rand', 'randn', 'uniform', 'normal', 'standard_normal', 'lognormal', 'randint',
         'choice', 'standard_gamma', 'gamma', 'exponential', 'multivariate_normal', 'permutation', 'shuffle']


@contextlib.contextmanager
def scripted(script=None):
    s = script if script is not None else Script()
    old = {n: getattr(np.random, n) for n in NAMES}
    extra = {'default_rng': np.random.default_rng, 'RandomState': np.random.RandomState}
    import numpy.random.mtrand as mt
    oldrand = mt._rand
    try:
        for n in NAMES:
            setattr(np.random, n, getattr(s, n))
        np.random.default_rng = lambda *a, **k: s
        mt._rand = s
        yield s
    finally:
        for n in NAMES:
            setattr(np.random, n, old[n])
        for n, f in extra.items():
            setattr(np.random, n, f)
        mt._rand = oldrand
