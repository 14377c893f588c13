"""Processes with kernels and means of every structure: constants, low rank, diagonal, zero, products and sums."""
import lab as B
import mlkernels as mk
import numpy as np
import stheno
from matrix import Dense, Diagonal
from stheno import GP, Delta, EQ, Linear, Matern12, Matern32, Matern52, OneKernel, RQ, ZeroKernel

from . import ref
from .engine import Prune
from .ref import RObs
from .world import OBS, XA, XB, XC, Y, P, World, f_add, f_in, f_mul, rx
from .world import _f_np, _g_np

r_ = lambda X, Z: np.sqrt(ref.sqdist(X, Z))
eq, m12, lin = ref.k_eq(), ref.k_m12(), ref.k_lin()
m32 = lambda X, Z: (1 + np.sqrt(3) * r_(X, Z)) * np.exp(-np.sqrt(3) * r_(X, Z))
m52 = lambda X, Z: (1 + np.sqrt(5) * r_(X, Z) + 5 / 3 * r_(X, Z) ** 2) * np.exp(-np.sqrt(5) * r_(X, Z))
rq = lambda X, Z: (1 + 0.5 * r_(X, Z) ** 2 / 0.7) ** -0.7
delta = lambda X, Z: (r_(X, Z) < 1e-6).astype(float)
const = lambda c: lambda X, Z: np.full((len(X), len(Z)), float(c))
outer = lambda X, Z: np.outer(_f_np(X), _f_np(Z))


def per(X, Z):
    e = lambda A: np.concatenate([np.sin(2 * np.pi * A / 3), np.cos(2 * np.pi * A / 3)], 1)
    return eq(e(X), e(Z))


def add(*ks):
    return lambda X, Z: sum(k(X, Z) for k in ks)


def mul(*ks):
    return lambda X, Z: np.prod([k(X, Z) for k in ks], axis=0)


# label -> (given to `GP`, reference).
KERNELS = {
    "EQ": (lambda: EQ(), eq),
    "number": (lambda: 1.7, const(1.7)),
    "0": (lambda: 0, const(0)),
    "Zero": (lambda: ZeroKernel(), const(0)),
    "One": (lambda: OneKernel(), const(1)),
    "function": (lambda: f_mul, outer),
    "Linear": (lambda: Linear(), lin),
    "0.5*Linear": (lambda: 0.5 * Linear(), ref.k_lin(0.5)),
    "Linear+1": (lambda: Linear() + 1, add(lin, const(1))),
    "Delta": (lambda: Delta(), delta),
    "0.3*Delta": (lambda: 0.3 * Delta(), lambda X, Z: 0.3 * delta(X, Z)),
    "EQ+0.3*Delta": (lambda: EQ() + 0.3 * Delta(), add(eq, lambda X, Z: 0.3 * delta(X, Z))),
    "Linear+Delta": (lambda: Linear() + Delta(), add(lin, delta)),
    "One+Delta": (lambda: 1 + Delta(), add(const(1), delta)),
    "EQ*Linear": (lambda: EQ() * Linear(), mul(eq, lin)),
    "Linear*Delta": (lambda: Linear() * Delta(), mul(lin, delta)),
    "f*Delta": (lambda: f_mul * Delta(), mul(outer, delta)),
    "EQ+One": (lambda: EQ() + 2, add(eq, const(2))),
    "RQ": (lambda: RQ(0.7), rq),
    "Matern12": (lambda: Matern12(), m12),
    "Matern32": (lambda: Matern32(), m32),
    "Matern52": (lambda: Matern52(), m52),
    "periodic": (lambda: EQ().periodic(3.0), per),
    "f*EQ": (lambda: f_mul * EQ(), mul(outer, eq)),
    "EQ-transformed": (lambda: EQ().transform(f_in), lambda X, Z: eq(f_in(X), f_in(Z))),
}
# label -> (given to `GP`, reference)
MEANS = {
    "none": (None, lambda X: np.zeros(len(X))),
    "0": (0, lambda X: np.zeros(len(X))),
    "number": (-1.3, lambda X: np.full(len(X), -1.3)),
    "function": (f_add, _g_np),
    "One": (stheno.OneMean(), lambda X: np.ones(len(X))),
    "Zero": (stheno.ZeroMean(), lambda X: np.zeros(len(X))),
    "One+f": (2 * stheno.OneMean() + f_add, lambda X: 2 + _g_np(X)),
    "f*One": (f_mul * stheno.OneMean(), _f_np),
}
# label, operation on (p, q), view of (p, q)
OPS = [
    ("p", lambda p, q: p, lambda X, a, b: a(X)),
    ("-2*p", lambda p, q: -2 * p, lambda X, a, b: a(X).scale(-2)),
    ("p+1", lambda p, q: p + 1, lambda X, a, b: a(X).shift(1)),
    ("p+g", lambda p, q: p + f_add, lambda X, a, b: a(X).shift(_g_np(X))),
    ("p+q", lambda p, q: p + q, lambda X, a, b: a(X) + b(X)),
    ("q-p", lambda p, q: q - p, lambda X, a, b: b(X) + a(X).scale(-1)),
    ("f*p", lambda p, q: f_mul * p, lambda X, a, b: a(X).scale(_f_np(X))),
    ("f*p+p", lambda p, q: p * f_mul + p, lambda X, a, b: a(X).scale(_f_np(X)) + a(X)),
    ("f*p+q", lambda p, q: p * f_mul + q, lambda X, a, b: a(X).scale(_f_np(X)) + b(X)),
    ("shift", lambda p, q: p.shift(0.6), lambda X, a, b: a(X - 0.6)),
    ("shift+p", lambda p, q: p.shift(0.6) + p, lambda X, a, b: a(X - 0.6) + a(X)),
    ("stretch", lambda p, q: p.stretch(1.8), lambda X, a, b: a(X / 1.8)),
    ("transform", lambda p, q: p.transform(f_in), lambda X, a, b: a(f_in(X))),
    ("select", lambda p, q: p.select(0), lambda X, a, b: a(X)),
]
TEST = np.concatenate([OBS[1][1:2], XC[1]])


def noises(n):
    D = np.linspace(0.2, 0.5, n)
    M = 0.3 * np.eye(n) + 0.05
    return [("0.3", 0.3, 0.3 * np.eye(n)), ("vector", D, np.diag(D)), ("matrix", M, M), ("Diagonal", Diagonal(D), np.diag(D)), ("Dense", Dense(M), M)]


def make(w, m, kernel, mean, label="p", d=1):
    k, rk = KERNELS[kernel]
    mu, rmu = MEANS[mean]
    real = GP(k(), measure=m.real) if mu is None else GP(mu, k(), measure=m.real)
    p = P(real, label, d, home=m)
    m.add_base(p, rk, rmu)
    w.ps.append(p)
    w.cx.step()
    return p


def views(cx, m, p, fdd, X, N, what, tol=1e-5, density=True):
    """All views of the distribution `fdd` of `p` at `X` with noise `N` under `m`."""
    v = m.at(p, X)
    mu, K = m.mean(v), m.cov(v, v) + N
    cx.close(fdd.mean_var[0], mu[:, None], f"{what}joint mean of {p}", tol)
    cx.close(fdd.mean_var[1], K, f"{what}joint variance of {p}", tol)
    new = lambda: type(fdd)(fdd.p, fdd.x, fdd.noise)
    mean, var = new().marginals()
    cx.close(mean, mu, f"{what}marginal mean of {p}", tol)
    cx.close(var, np.maximum(np.diag(K), 0), f"{what}marginal variance of {p}", tol)
    a, lo, hi = new().marginal_credible_bounds()
    cx.check(np.shape(lo) == np.shape(hi) == mu.shape, "shape of credible bounds")
    cx.close(new().var_diag, np.diag(K), f"{what}variance diagonal of {p}", tol)
    cx.close(new().mean, mu[:, None], f"{what}mean of {p}", tol)
    cx.close(new().var, K, f"{what}variance of {p}", tol)
    cx.close(new().m2, K + np.outer(mu, mu), f"{what}second moment of {p}", tol)
    if density and np.linalg.eigvalsh(K)[0] > 1e-3:
        y = np.linspace(-1, 1.5, len(mu))
        cx.close(new().logpdf(y), ref.logpdf(mu, K, y), f"{what}log-density of {p}", tol)
        cx.close(new().entropy(), 0.5 * (np.linalg.slogdet(K)[1] + len(mu) * (np.log(2 * np.pi) + 1)), f"{what}entropy of {p}", tol)
    s = new().sample(np.random.RandomState(1), 2)[1]
    cx.check(np.shape(s) == (len(mu), 2) and np.all(np.isfinite(s)), f"{what}samples of {p} have shape {np.shape(s)}")


# Of low rank: in sums with itself the factors are redundant, and the jitter of factorisations becomes visible.
LOW = ["number", "One", "function", "Linear", "0.5*Linear", "Linear+1", "Linear+Delta", "One+Delta"]


def structured(kernels, means, kinds, ops=None, deep=False):
    def prog(cx):
        w = World(cx)
        m = w.measure()
        kernel = cx.pick(kernels, "kernel")
        p = make(w, m, kernel, cx.pick(means, "mean"))
        q = w.base(m, "exp")
        label, op, view = cx.pick([o for o in OPS if ops is None or o[0] in ops], "op")
        h = p if label == "p" else w.lin(op(p.real, q.real), label, (p, q), view)
        kind = cx.pick(kinds, "kind") if len(kinds) > 1 else kinds[0]
        redundant = kernel in LOW and label in ("shift+p", "f*p+p")
        # The distribution.
        n = len(TEST)
        if kind == "prior":
            w.compare(m, [h, p, q])
            views(cx, m, h, h.real(rx(TEST)), TEST, np.zeros((n, n)), "", density=False)
            for nl, nr, N in noises(n):
                views(cx, m, h, h.real(rx(TEST), nr), TEST, N, nl + " noise: ", density=not redundant)
            return
        if redundant:
            raise Prune()
        X, y = OBS[1][:3], Y[:3]
        allowed = ["vector", "0.3", "Diagonal", "matrix", "Dense"] if kind == "exact" else ["vector", "0.3", "Diagonal"]
        nl, nr, N = cx.pick([a for a in noises(3) if a[0] in (allowed if deep or label == "p" else allowed[:1])], "noise")
        obs = cx.pick([h, q] if kind == "exact" and (deep or label in ("p", "f*p+q")) else [h], "observed")
        if kind == "exact":
            post = w.posterior(m, RObs(obs, X, N, y), m.real | (obs.real(rx(X), nr), y))
        else:
            Z = XA[1]
            C = {"vfe": stheno.PseudoObs, "fitc": stheno.PseudoObsFITC, "dtc": stheno.PseudoObsDTC}[kind]
            o = C(q.real(rx(Z), 0.1), obs.real(rx(X), nr), y)
            robs = RObs(obs, X, N, y, kind, q, Z, 0.1 * np.eye(len(Z)))
            post = w.posterior(m, robs, m.real | o)
            cx.close(m.real.logpdf(o), post.elbo(), "evidence bound")
        w.compare(post, [h, p, q] if h is not p else [p, q])
        views(cx, post, h, post.real(h.real(rx(TEST), 0.2)), TEST, 0.2 * np.eye(n), "posterior: ")
        c = w.copy(post, h)
        views(cx, post, c, c.real(rx(TEST)), TEST, np.zeros((n, n)), "posterior: ", density=False)
        # Condition again, and the evidence of that.
        X2, y2 = XB[1], np.array([0.4, -1.1])
        cx.close(post.real.logpdf(h.real(rx(X2), 0.2), y2), post.logpdf(h, X2, 0.2 * np.eye(2), y2), "evidence under the posterior")
        post2 = w.observe(post, h, X2, 0.2, y2)
        w.compare(post2, [h, p])
        w.compare(post2, [q], what="again: ")
    return prog


def multi(kernels, means):
    """Cartesian products and products of processes with all structures."""
    def prog(cx):
        w = World(cx)
        m = w.measure()
        kernel = cx.pick(kernels, "kernel")
        p = make(w, m, kernel, cx.pick(means, "mean"))
        q = w.base(m, "exp")
        what = cx.pick(["p,q", "q,p", "p,p", "p,p+q", "p", "p,(p,q)", "q,-p,p", "late"], "product")
        if what == "late":
            # An independent process after the product.
            c = w.cross(q, w.lin(q.real + 1, "q+1", (q,), lambda X, a: a(X).shift(1)))
            u = make(w, m, kernel, "number", "u")
            c2 = w.cross(c, u)
        else:
            s = w.lin(p.real + q.real, "p+q", (p, q), lambda X, a, b: a(X) + b(X))
            n = w.lin(-p.real, "-p", (p,), lambda X, a: a(X).scale(-1))
            c = w.cross(*{"p,q": [p, q], "q,p": [q, p], "p,p": [p, p], "p,p+q": [p, s], "p": [p], "p,(p,q)": [p, w.cross(p, q)] if "(" in what else [], "q,-p,p": [q, n, p]}[what])
            u, c2 = q, c
        w.compare(m, [c2, p, q])
        k = c2.out * len(TEST)
        for nl, nr, N in noises(k):
            views(cx, m, c2, c2.real(rx(TEST), nr), TEST, N, nl + " noise: ")
        X = OBS[1][:2]
        nl, nr, N = noises(2 * c2.out)[cx.choose(2, "noise")]
        y = np.linspace(-1, 1.3, 2 * c2.out)
        post = w.posterior(m, RObs(c2, X, N, y), m.real | (c2.real(rx(X), nr), y))
        w.compare(post, [c2, p, u])
        views(cx, post, c2, post.real(c2.real(rx(TEST), 0.2)), TEST, 0.2 * np.eye(k), "posterior: ")
        spec, rspec = (p.real(rx(X)), q.real(rx(TEST))), (ref.Tag(p, X), ref.Tag(q, TEST))
        d = w.cross(p, q)
        n = len(X) + len(TEST)
        f = post.real(d.real(spec, 0.3))
        views(cx, post, d, f, rspec, 0.3 * np.eye(n), "tagged inputs: ")
    return prog


def products(kernels, means):
    """Products of processes of all structures."""
    def prog(cx):
        w = World(cx)
        m = w.measure()
        p = make(w, m, cx.pick(kernels, "kernel"), cx.pick(means, "mean"), "p")
        q = make(w, m, cx.pick(kernels, "kernel"), cx.pick(means, "mean"), "q") if cx.choose(2, "other") == 0 else p
        r = w.product(p, q)
        for nl, nr, N in noises(len(TEST))[:2]:
            views(cx, m, r, r.real(rx(TEST), nr), TEST, N, nl + " noise: ")
        w.compare(m, [p, q, r] if q is not p else [p, r])
    return prog
