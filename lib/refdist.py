"""Reference model of constraint semantics, written from the documentation and
independent of flavio's code: log-densities by scipy.stats only."""
import numpy as np, scipy.stats as st, math


class RNormal(object):
    n = 1
    def __init__(self, c, s):
        self.c, self.s = c, s
        self.central = [c]
        self.err = [(s, s)]
    def logpdf(self, x, keep):
        return float(st.norm(self.c, self.s).logpdf(x[0]))


class RAsym(object):
    n = 1
    def __init__(self, c, r, l):
        self.c, self.r, self.l = c, r, l
        self.central = [c]
        self.err = [(r, l)]
    def logpdf(self, x, keep):
        # two half-Gaussians glued continuously
        s = self.r if x[0] >= self.c else self.l
        norm = 2. / (math.sqrt(2 * math.pi) * (self.r + self.l))
        return math.log(norm) - (x[0] - self.c)**2 / (2 * s**2)


class RUniform(object):
    n = 1
    def __init__(self, c, h):
        self.c, self.h = c, h
        self.central = [c]
        self.err = [(h * (2 * st.norm.cdf(1) - 1),) * 2]
    def logpdf(self, x, keep):
        return -math.log(2 * self.h) if self.c - self.h <= x[0] < self.c + self.h else -np.inf


class RDelta(object):
    n = 1
    def __init__(self, c):
        self.c = c
        self.central = [c]
        self.err = [(0, 0)]
    def logpdf(self, x, keep):
        return 0. if x[0] == self.c else -np.inf


class RMVN(object):
    def __init__(self, c, cov):
        self.c = np.asarray(c, float)
        self.cov = np.asarray(cov, float)
        self.n = len(self.c)
        self.central = list(self.c)
        s = np.sqrt(np.diag(self.cov))
        self.err = [(v, v) for v in s]
    def logpdf(self, x, keep):
        keep = list(keep)
        return float(st.multivariate_normal(self.c[keep], self.cov[np.ix_(keep, keep)]).logpdf(
            np.asarray(x, float)))


class RMVNum(object):
    """multivariate numerical on a tensor grid; log-linear multilinear
    interpolation; excluded directions are profiled over the grid (1D result:
    linear interpolation of the normalised profile)."""
    def __init__(self, xi, y):
        self.xi = [np.asarray(a, float) for a in xi]
        self.y = np.asarray(y, float)
        self.n = len(xi)
        vol = np.prod([a[1] - a[0] for a in self.xi])
        self.yn = self.y / self.y.sum() / vol
        k = np.unravel_index(self.y.argmax(), self.y.shape)
        self.central = [a[i] for a, i in zip(self.xi, k)]
        self.err = None
    def logpdf(self, x, keep):
        from itertools import product
        keep = list(keep)
        if len(keep) == self.n:
            return self._interp(self.xi, np.log(self.yn), x, -np.inf)
        drop = tuple(i for i in range(self.n) if i not in keep)
        yp = self.yn.max(axis=drop)
        xs = [self.xi[i] for i in keep]
        if len(keep) == 1:
            yp = yp / np.trapz(yp, x=xs[0])
            v = self._interp(xs, yp, x, 0.)
            return math.log(v) if v > 0 else -np.inf
        yp = yp / yp.sum() / np.prod([a[1] - a[0] for a in xs])
        return self._interp(xs, np.log(yp), x, -np.inf)
    @staticmethod
    def _interp(xs, arr, x, out):
        from itertools import product
        idx, w = [], []
        for a, v in zip(xs, x):
            if v < a[0] or v > a[-1]:
                return out
            i = min(int(np.searchsorted(a, v, side='right')) - 1, len(a) - 2)
            t = (v - a[i]) / (a[i + 1] - a[i])
            idx.append((i, i + 1))
            w.append((1 - t, t))
        tot = 0.
        for corner in product((0, 1), repeat=len(xs)):
            ww = 1.
            for d, c in enumerate(corner):
                ww *= w[d][c]
            if ww:
                tot += ww * arr[tuple(idx[d][c] for d, c in enumerate(corner))]
        return tot


def close(a, b, rel=1e-9, ab=1e-12):
    a = float(a); b = float(b)
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))
