"""C12: inducing-point approximations equal their defining formulas."""
import itertools

import numpy as np
from matrix import Constant, Dense, Diagonal, LowRank
from stheno import (PseudoObs, PseudoObsDTC, PseudoObservations, PseudoObservationsDTC, PseudoObservationsFITC, PseudoObsFITC, SparseObs,
                    SparseObservations)

from .. import structures
from ..ref import RObs, Tag
from ..world import OBS, XA, XB, Y, World, rx

BOUNDS = {
    "quick": "formulas: 3 methods x 8 shapes of observations x 7 shapes of inducing points x 3 noises on them x 3 noises on the data, in a prior and a posterior; "
             "the first query (mean or ELBO) alternates; subsets: all subsets of 5 candidate inducing points; reuse: all sequences of 3 uses of one object with two measures; extension: "
             "all constructions in an approximate posterior and conditioning it again; structures: 3 methods x 25 kernels x 3 operations x 3 kinds of noise",
    "thorough": "all products of these, subsets of 7, sequences of 5 uses with three measures",
}
ASSUMPTIONS = ["inducing points are separated enough for the regularisation of Cholesky factorisations to be invisible"]

METHODS = [("vfe", PseudoObs), ("fitc", PseudoObsFITC), ("dtc", PseudoObsDTC)]
ALIASES = [("vfe", PseudoObservations), ("vfe", SparseObs), ("vfe", SparseObservations), ("fitc", PseudoObservationsFITC), ("dtc", PseudoObservationsDTC)]
Z = np.array([[-1.5], [-0.1], [1.4], [2.6]])


def model(cx, w, kind, d=1):
    m = w.measure()
    f, g = w.base(m, "eq", d), w.base(m, "lin", d)
    if kind == "posterior":
        m = w.observe(m, g, np.array([[0.9], [-2.5]]), 0.3, np.array([0.4, -1.0]))
        g, e = w.copy(m, g), w.base(m, "exp")
        f = w.lin(g.real + 0.7 * e.real, "f", (g, e), lambda X, a, b: a(X) + b(X).scale(0.7))
    h = w.lin(f.real - g.real.stretch(2), "h", (f, g), lambda X, a, b: a(X) + b(X / 2).scale(-1))
    c = w.cross(g, h)
    return m, f, g, h, c


def data_shapes(m, f, g, h, c):
    X = OBS[1]
    T = lambda p, s: (p.real(rx(s)), Tag(p, s))
    return {
        "f": [(f, rx(X), X)],
        "h": [(h, X, X)],
        "f,h": [(f, rx(X[:2]), X[:2]), (h, rx(X[2:]), X[2:])],
        "h,g,h": [(h, rx(X[:1]), X[:1]), (g, rx(X[1:3]), X[1:3]), (h, rx(X[3:]), X[3:])],
        "cross": [(c, rx(X[:2]), X[:2])],
        "cross tagged": [(c, (T(h, X[:1])[0], T(g, X[1:])[0]), (T(h, X[:1])[1], T(g, X[1:])[1]))],
        "f,cross": [(f, rx(X[:2]), X[:2]), (c, rx(X[2:3]), X[2:3])],
        "one": [(g, rx(X[1:2]), X[1:2])],
    }


def inducing_shapes(m, f, g, h, c):
    T = lambda p, s: (p.real(rx(s)), Tag(p, s))
    return {
        "f": [(f, rx(Z), Z)],
        "g": [(g, Z, Z)],
        "h": [(h, rx(Z[:3]), Z[:3])],
        "f,g": [(f, rx(Z[:2]), Z[:2]), (g, rx(Z[1:]), Z[1:])],
        "h,f,g": [(h, rx(Z[3:]), Z[3:]), (f, rx(Z[:1]), Z[:1]), (g, rx(Z[1:3]), Z[1:3])],
        "cross": [(c, rx(Z[1:3]), Z[1:3])],
        "cross tagged": [(c, (T(g, Z[:2])[0], T(h, Z[1:3])[0]), (T(g, Z[:2])[1], T(h, Z[1:3])[1]))],
        "one": [(f, rx(Z[:1]), Z[:1])],
    }


def noises(kind, n, o=0):
    v = np.array([0.2, 0.45, 0.3, 0.6, 0.25, 0.5])[o : o + n]
    A = np.array([[0.5, 0.1, 0.05, -0.1], [0.1, 0.4, 0.12, 0.07], [0.05, 0.12, 0.6, 0.2], [-0.1, 0.07, 0.2, 0.55]])
    if kind == "none":
        return None, np.zeros((n, n))
    if kind == "scalar":
        return 0.35, 0.35 * np.eye(n)
    if kind == "vector":
        return v, np.diag(v)
    if kind == "Diagonal":
        return Diagonal(v), np.diag(v)
    if kind == "matrix":
        return A[:n, :n], A[:n, :n]
    raise KeyError(kind)


class Joint:
    """Reference for several (process, inputs) together."""

    def __init__(self, m, parts, kinds, d=1):
        self.real, Ns, specs, o = [], [], [], 0
        for (p, xr, xs), k in zip(parts, kinds):
            n = len(m.at(p, xs))
            nr, N = noises(k, n, o)
            o += n
            self.real.append(p.real(xr, nr))
            Ns.append(N)
            specs.append(Tag(p, xs))
        self.n = o
        self.N = np.zeros((o, o))
        i = 0
        for N in Ns:
            self.N[i : i + len(N), i : i + len(N)] = N
            i += len(N)
        self.spec = tuple(specs)


def joint_process(m):
    j = object()
    m.defs[j] = lambda s: m.at(s.p, s.x)
    return j


def robs(m, method, D, U, y):
    j = joint_process(m)
    return RObs(j, D.spec, D.N, y, method, j, U.spec, U.N)


def data_args(D, y):
    if len(D.real) == 1:
        return (D.real[0], y)
    out, i = [], 0
    sizes = [len(v) for v in D.values]
    for r, s in zip(D.real, sizes):
        out.append((r, y[i : i + s]))
        i += s
    return tuple(out)


def make(m, dparts, dk, uparts, uk):
    D, U = Joint(m, dparts, dk), Joint(m, uparts, uk)
    D.values = [m.at(p, s) for p, _, s in dparts]
    return D, U


def formulas(cx):
    deep = cx.tier == "thorough"
    kind = cx.pick(["prior", "posterior"], "model")
    method, cls = cx.pick(METHODS, "method")
    w = World(cx)
    m, f, g, h, c = model(cx, w, kind)
    ds, us = data_shapes(m, f, g, h, c), inducing_shapes(m, f, g, h, c)
    dl, ul = cx.pick(list(ds), "data"), cx.pick(list(us), "inducing")
    if deep:
        dk, uk = cx.pick(["scalar", "vector", "Diagonal"], "noise"), cx.pick(["none", "scalar", "vector", "matrix"], "inducing noise")
    else:
        i = (list(ds).index(dl) + list(us).index(ul)) % 3
        dk, uk = [("vector", "none"), ("scalar", "none"), ("Diagonal", "none")][i] if cx.choose(2, "noises") == 0 else [("scalar", "scalar"), ("Diagonal", "vector"), ("vector", "matrix")][i]
    D, U = make(m, ds[dl], [dk] * 3, us[ul], [uk] * 3)
    y = np.resize(Y, D.n)
    ureal = U.real[0] if len(U.real) == 1 else tuple(U.real)
    o = cls(ureal, *data_args(D, y))
    cx.step()
    first = cx.pick(["condition", "elbo"], "first") if deep else ["condition", "elbo"][sum(cx.choices) % 2]
    ro = robs(m, method, D, U, y)
    if first == "elbo":
        e = m.real.logpdf(o)
    post = w.posterior(m, ro, m.real | o if first == "condition" else m.real.condition(o))
    if first == "condition":
        w.compare(post, ps=[f, g, h], new=[f, h], elwise=True)
        w.same_mean(post, c)
        w.same_cov(post, c, f)
        e = o.elbo(m.real)
    else:
        w.compare(post, ps=[f, g, h], new=[g])
    cx.close(e, post.elbo(), "evidence bound")
    cx.check(np.shape(e) == (), "the evidence bound is not a scalar")
    cx.close(m.real.logpdf(o), post.elbo(), "evidence bound by logpdf")
    if method == "vfe":
        j = joint_process(m)
        cx.check(float(e) <= m.logpdf(j, D.spec, D.N, y) + 1e-6, "the bound exceeds the evidence")
    # The distributions that were given are as they were.
    for r, k in zip(D.real, D.values):
        cx.check(r.noise.diag.shape == (len(k),), "noise of the data changed")
    cx.close(o.fdd.noise, D.N, "noise of the data")
    cx.close(o.u.noise, U.N, "noise of the inducing points")


def subsets(n):
    """Bounds and posteriors for all sets of inducing points."""
    pool = np.array([[-1.4], [0.2], [1.1], [2.05], [-2.4], [3.1], [0.65]])[:n]

    def prog(cx):
        method, cls = cx.pick(METHODS + ALIASES, "class")
        k = cx.choose(2**n - 1, "subset") + 1
        idx = [i for i in range(n) if k >> i & 1]
        w = World(cx)
        m = w.measure()
        f, g = w.base(m, "eq"), w.base(m, "exp")
        h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
        p, q = cx.pick([("f", (f, f)), ("h", (h, h)), ("f from h", (h, f))], "processes")[1]
        X, z = OBS[1], pool[idx]
        noise = np.array([0.2, 0.4, 0.3, 0.25])
        o = cls(q.real(rx(z)), p.real(rx(X), noise), Y)
        N = np.diag(noise)
        post = w.posterior(m, RObs(p, X, N, Y, method, q, z, np.zeros((len(z), len(z)))), m.real | o)
        e = o.elbo(m.real)
        cx.close(e, post.elbo(), "evidence bound")
        w.compare(post, ps=[f, g, h], new=[p])
        ev = m.logpdf(p, X, N, Y)
        if method == "vfe":
            cx.check(float(e) <= ev + 1e-6, f"bound {e} exceeds evidence {ev}")
        if set(range(4)) <= set(idx) and p is q:
            # All data are inducing points: exact.
            cx.close(e, ev, "bound with inducing points at the data", tol=1e-4)
            exact = w.posterior(m, RObs(p, X, N, Y), m.real | (p.real(rx(X), noise), Y))
            for r in (f, g, h):
                cx.close(post.real.means[r.real](rx(XA[1])), exact.m(r, XA[1])[:, None], "exact mean", tol=1e-4)
                cx.close(post.real.kernels[r.real](rx(XA[1])), exact.k(r, XA[1], r, XA[1]), "exact covariance", tol=1e-4)
                cx.close(exact.real.means[r.real](rx(XA[1])), exact.m(r, XA[1])[:, None], "exact mean")

    return prog


def reuse(depth, n):
    """One observations object with several measures, in any order of use."""

    def prog(cx):
        method, cls = cx.pick(METHODS, "method")
        w = World(cx)
        m0 = w.measure()
        f, g = w.base(m0, "eq"), w.base(m0, "lin")
        ms = [m0, w.observe(m0, g, np.array([[0.9], [-2.5]]), 0.3, np.array([0.4, -1.0]))]
        if n > 2:
            ms.append(w.observe(ms[1], f, np.array([[0.6]]), 0.2, np.array([1.4])))
        X = OBS[1]
        z = Z[:3]
        noise = np.array([0.2, 0.4, 0.3, 0.25])
        h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
        o = cls((f.real(rx(z)), g.real(rx(z[:2]))), h.real(rx(X), noise), Y)
        ref = {}
        for i, m in enumerate(ms):
            j = joint_process(m)
            from ..ref import RM

            m.has(h) or m.defs.setdefault(h, None)
            ref[i] = RM(m, RObs(h, X, np.diag(noise), Y, method, j, (Tag(f, z), Tag(g, z[:2])), np.zeros((5, 5))))
        for s in range(depth):
            i = cx.choose(len(ms), "measure")
            what = cx.pick(["elbo", "logpdf", "mean", "kernel", "K_z"], "use")
            m, r = ms[i], ref[i]
            cx.step()
            if what == "elbo":
                cx.close(o.elbo(m.real), r.elbo(), f"evidence bound under m{i}")
            elif what == "logpdf":
                cx.close(m.real.logpdf(o), r.elbo(), f"evidence bound under m{i}")
            elif what == "K_z":
                v = m.at(r.obs.u, r.obs.uspec)
                cx.close(o.K_z(m.real), m.cov(v, v), f"inducing covariance under m{i}")
            else:
                post = m.real | o
                if what == "mean":
                    cx.close(post.means[h.real](rx(XA[1])), r.m(h, XA[1])[:, None], f"posterior mean under m{i}")
                else:
                    cx.close(post.kernels[f.real, h.real](rx(XA[1]), rx(XB[1])), r.k(f, XA[1], h, XB[1]), f"posterior covariance under m{i}")
            cx.state(s, i, what)

    return prog


BAD = {
    "matrix": lambda n: 0.3 * np.eye(n) + 0.1,
    "Dense": lambda n: Dense(0.3 * np.eye(n) + 0.1),
    "low rank": lambda n: Diagonal(np.full(n, 0.3)) + LowRank(np.ones((n, 1))),
    "constant": lambda n: Constant(0.3, n, n),
    "upper corner": lambda n: np.eye(n) + 0.2 * np.eye(n, k=n - 1) + 0.2 * np.eye(n, k=1 - n),
    "joint": None,
}


def rejected(cx):
    """Noise that is not diagonal."""
    method, cls = cx.pick(METHODS + ALIASES, "class")
    bad = cx.pick(list(BAD), "noise")
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq"), w.base(m, "lin")
    if cx.choose(2, "posterior"):
        m = w.observe(m, g, np.array([[0.9], [-2.5]]), 0.3, np.array([0.4, -1.0]))
    X = OBS[1]
    if bad == "joint":
        args = ((f.real(rx(X[:2]), 0.3 * np.eye(2) + 0.1), Y[:2]), (g.real(rx(X[2:]), 0.2), Y[2:]))
    else:
        args = (f.real(rx(X), BAD[bad](4)), Y)
    use = cx.pick(["elbo", "logpdf", "posterior mean", "posterior kernel"], "use")
    cx.step()

    def run():
        o = cls(f.real(rx(Z)), *args)
        if use == "elbo":
            return o.elbo(m.real)
        if use == "logpdf":
            return m.real.logpdf(o)
        post = m.real | o
        return post.means[f.real](rx(X)) if use == "posterior mean" else post.kernels[f.real](rx(X))

    cx.raises(RuntimeError, run, "noise that is not diagonal")
    if bad != "joint":
        # Afterwards everything works.
        w.compare(m, ps=[f, g], elwise=False)


def extension(cx):
    """Building and conditioning on top of an approximate posterior."""
    method, cls = cx.pick(METHODS, "method")
    w = World(cx)
    m, f, g, h, c = model(cx, w, "prior")
    shape, U = cx.pick([("f", [(f, rx(Z), Z)]), ("f,g", [(f, rx(Z[:2]), Z[:2]), (g, rx(Z[1:]), Z[1:])])], "inducing")
    D, U = make(m, [(h, rx(OBS[1]), OBS[1])], ["vector"], U, ["none"] * 2)
    ureal = U.real[0] if len(U.real) == 1 else tuple(U.real)
    o = cls(ureal, D.real[0], Y)
    post = w.posterior(m, robs(m, method, D, U, Y), m.real | o)
    new = []
    if cx.choose(2, "copy") == 0:
        pf = w.copy(post, f)
        e = w.base(post, "exp")
        new = [pf, e, w.lin(pf.real * 2 + e.real, "s", (pf, e), lambda X, a, b: a(X).scale(2) + b(X))]
    else:
        new = [w.lin((f.real + g.real).shift(0.2), "s", (f, g), lambda X, a, b: a(X - 0.2) + b(X - 0.2))]
        # Built from processes of the prior: it belongs to both measures.
    w.compare(post, ps=[f, g] + new, new=new[-1:])
    p = new[-1]
    again = cx.pick(["exact", "vfe", "fitc", "dtc"], "again")
    X2 = np.array([[0.5], [-1.9]])
    y2, n2 = np.array([0.3, -0.4]), np.array([0.3, 0.2])
    if again == "exact":
        post2 = w.observe(post, p, X2, n2, y2)
    else:
        z = np.array([[0.1], [1.3], [-1.5]])
        o2 = dict(METHODS)[again](p.real(rx(z)), p.real(rx(X2), n2), y2)
        post2 = w.posterior(post, RObs(p, X2, np.diag(n2), y2, again, p, z, np.zeros((3, 3))), post.real | o2)
        cx.close(o2.elbo(post.real), post2.elbo(), "evidence bound of a further approximation")
    w.compare(post2, ps=[f, h] + new, new=[p])
    # The first observations with the second measure.
    if cx.choose(2, "reuse") and again == "exact":
        ro = robs(post, method, D, U, Y)
        cx.close(post.real.logpdf(o), w.posterior(post, ro, None).elbo(), "bound under the posterior")


def harnesses(tier):
    deep = tier == "thorough"
    return {"formulas": formulas, "subsets": subsets(7 if deep else 5), "reuse": reuse(5 if deep else 3, 3 if deep else 2), "rejected": rejected, "extension": extension,
            "structures": structures.structured(list(structures.KERNELS), ["function"], ["vfe", "fitc", "dtc"], None if deep else ["p", "f*p+q", "shift"], deep=deep)}
