"""Reference model of stheno in plain NumPy.

A finite-dimensional view of a process under a measure is a :class:`Vec`: an offset plus a linear functional of
the independent base processes of that measure and, if the measure is a posterior, of views under its parent.
Means and covariances follow by linearity; conditioning is textbook Gaussian conditioning (or one of the three
inducing-point closed forms) of the parent measure.  Nothing here imports the library under test.
"""
import itertools

import numpy as np

_uid = itertools.count()


class Tag:
    """Input tagged with a process: select that output of a multi-output process."""

    def __init__(self, p, x):
        self.p, self.x = p, x


class Base:
    """Independent base process with kernel `k(X, Y)` and mean `m(X)`."""

    def __init__(self, k, m):
        self.k, self.m = k, m


class Vec:
    """`off + sum_i W_i t_i`, where `t_i` is a base process at some inputs or a view under the parent measure."""

    __slots__ = ("off", "terms")

    def __init__(self, off, terms):
        self.off, self.terms = off, terms

    def __len__(self):
        return len(self.off)

    def scale(self, c):
        """Multiply by a scalar or by one number per row."""
        c = np.broadcast_to(np.asarray(c, dtype=float).reshape(-1) if np.ndim(c) else float(c), (len(self),))
        return Vec(c * self.off, [(c[:, None] * W, b, a) for W, b, a in self.terms])

    def shift(self, c):
        return Vec(self.off + c, self.terms)

    def __add__(self, o):
        return Vec(self.off + o.off, self.terms + o.terms)

    def map(self, A):
        return Vec(A @ self.off, [(A @ W, b, a) for W, b, a in self.terms])

    def take(self, idx):
        return Vec(self.off[idx], [(W[idx], b, a) for W, b, a in self.terms])

    @staticmethod
    def concat(vs):
        vs = list(vs)
        n = sum(map(len, vs))
        off = np.concatenate([v.off for v in vs]) if vs else np.zeros(0)
        terms, i = [], 0
        for v in vs:
            for W, b, a in v.terms:
                P = np.zeros((n, W.shape[1]))
                P[i : i + len(v)] = W
                terms.append((P, b, a))
            i += len(v)
        return Vec(off, terms)


class RObs:
    """Observations: `p` at `spec` with noise matrix `N` has values `y`; with inducing points if `method`."""

    def __init__(self, p, spec, N, y, method=None, u=None, uspec=None, uN=None):
        self.p, self.spec, self.N, self.y = p, spec, np.asarray(N, float), np.asarray(y, float).reshape(-1)
        self.method, self.u, self.uspec, self.uN = method, u, uspec, uN

    def without_missing(self):
        ok = ~np.isnan(self.y)
        return self if ok.all() else _Masked(self, ok)


class _Masked(RObs):
    def __init__(self, o, ok):
        RObs.__init__(self, o.p, o.spec, o.N[np.ix_(ok, ok)], o.y[ok], o.method, o.u, o.uspec, o.uN)
        self.ok = ok


class RM:
    """A measure."""

    def __init__(self, parent=None, obs=None, real=None):
        self.parent, self.obs, self.real = parent, obs, real
        self.defs = {}
        self.comps = {}
        self._cond = None
        self.inherited = set(parent.procs()) if parent else set()

    def procs(self):
        return list(self.inherited) + [p for p in self.defs if p not in self.inherited]

    def has(self, p):
        return p in self.defs or p in self.inherited

    # -- views -------------------------------------------------------------------------------------------
    def at(self, p, spec):
        if isinstance(spec, tuple):
            return Vec.concat([self.at(p, s) for s in spec])
        if p in self.defs:
            return self.defs[p](spec)
        if p in self.inherited:
            v = self.parent.at(p, spec)
            return Vec(np.zeros(len(v)), [(np.eye(len(v)), None, v)])
        raise KeyError(p)

    def add_base(self, p, k, m):
        b = Base(k, m)
        self.defs[p] = lambda X: Vec(np.asarray(m(X), float).reshape(-1), [(np.eye(len(X)), b, X)])

    def add_cross(self, p, ps):
        self.comps[p] = tuple(ps)

        def view(spec):
            if isinstance(spec, Tag):
                return self.at(spec.p, spec.x)
            return Vec.concat([self.at(q, spec) for q in ps])

        self.defs[p] = view

    def add_product(self, p, p1, p2):
        """Moment-matched product, as the library defines it for joint moments with other processes."""
        m1 = lambda X: self.mean(self.at(p1, X))
        m2 = lambda X: self.mean(self.at(p2, X))

        def k(X, Y):
            c = lambda a, b: self.cov(self.at(a, X), self.at(b, Y))
            return c(p1, p1) * c(p2, p2) + c(p1, p2) * c(p2, p1)

        b = Base(k, None)

        def view(X):
            a1, a2 = self.at(p1, X), self.at(p2, X)
            off = -m1(X) * m2(X) + np.diag(self.cov(a1, a2))
            return a1.scale(m2(X)) + a2.scale(m1(X)) + Vec(off, [(np.eye(len(X)), b, X)])

        self.defs[p] = view

    # -- moments -----------------------------------------------------------------------------------------
    def mean(self, v):
        r = v.off.copy()
        for W, b, a in v.terms:
            if b is None:
                r = r + W @ self._cmean(a)
        return r

    def cov(self, u, v):
        r = np.zeros((len(u), len(v)))
        for W, b, a in u.terms:
            for W2, b2, a2 in v.terms:
                if b is b2:
                    r += W @ (self._ccov(a, a2) if b is None else b.k(a, a2)) @ W2.T
        return r

    # -- conditioning: quantities of the parent -----------------------------------------------------------
    def _prepare(self):
        if self._cond is None:
            P, o = self.parent, self.obs
            ov = P.at(o.p, o.spec)
            if hasattr(o, "ok"):
                ov = ov.take(o.ok)
            r = o.y - P.mean(ov)
            if len(ov) == 0 and o.method is None:
                self._cond = ("none",)
            elif o.method is None:
                self._cond = ("exact", ov, np.linalg.inv(P.cov(ov, ov) + o.N), r)
            else:
                z = P.at(o.u, o.uspec)
                Kz = P.cov(z, z) + o.uN
                Kzx = P.cov(z, ov)
                Kx = P.cov(ov, ov)
                Kn = np.array(o.N)
                Kzi = np.linalg.inv(Kz)
                Q = Kzx.T @ Kzi @ Kzx
                trace = 0.0
                if o.method == "fitc":
                    Kn = Kn + np.diag(np.diag(Kx - Q))
                elif o.method == "vfe":
                    trace = np.sum(np.diag(Kx - Q) / np.diag(Kn)) if len(Kn) else 0.0
                Kni = np.diag(1 / np.diag(Kn)) if len(Kn) else Kn
                A = Kz + Kzx @ Kni @ Kzx.T
                Ai = np.linalg.inv(A)
                elbo = logpdf(np.zeros(len(r)), Q + Kn, r) - 0.5 * trace
                self._cond = ("pseudo", z, Kzi, Ai, Ai @ Kzx @ Kni @ r, elbo)
        return self._cond

    def elbo(self):
        return self._prepare()[5]

    def _cmean(self, a):
        c, P = self._prepare(), self.parent
        m = P.mean(a)
        if c[0] == "exact":
            return m + P.cov(a, c[1]) @ (c[2] @ c[3])
        if c[0] == "pseudo":
            return m + P.cov(a, c[1]) @ c[4]
        return m

    def _ccov(self, a, b):
        c, P = self._prepare(), self.parent
        K = P.cov(a, b)
        if c[0] == "exact":
            return K - P.cov(a, c[1]) @ c[2] @ P.cov(c[1], b)
        if c[0] == "pseudo":
            return K - P.cov(a, c[1]) @ (c[2] - c[3]) @ P.cov(c[1], b)
        return K

    # -- convenience -------------------------------------------------------------------------------------
    def m(self, p, spec):
        return self.mean(self.at(p, spec))

    def k(self, p, s, q, t):
        return self.cov(self.at(p, s), self.at(q, t))

    def logpdf(self, p, spec, N, y, ok=None):
        v = self.at(p, spec)
        K = self.cov(v, v) + N
        mu = self.mean(v)
        y = np.asarray(y, float).reshape(-1)
        if ok is not None:
            mu, K, y = mu[ok], K[np.ix_(ok, ok)], y[ok]
        return logpdf(mu, K, y)


def logpdf(mu, K, y):
    d = y - mu
    if len(d) == 0:
        return 0.0
    s, ld = np.linalg.slogdet(K)
    return -0.5 * (d @ np.linalg.solve(K, d) + ld + len(d) * np.log(2 * np.pi))


# -- kernels and means -----------------------------------------------------------------------------------
def sqdist(X, Y):
    return ((X[:, None, :] - Y[None, :, :]) ** 2).sum(-1)


def k_eq(l=1.0, v=1.0):
    return lambda X, Y: v * np.exp(-0.5 * sqdist(X, Y) / l**2)


def k_m12(l=1.0, v=1.0):
    return lambda X, Y: v * np.exp(-np.sqrt(sqdist(X, Y)) / l)


def k_lin(v=1.0, c=0.0):
    return lambda X, Y: v * X @ Y.T + c
