"""Integers as inputs, observations, noise, means and variances: the same as the floating-point numbers they equal."""
import lab as B
import numpy as np
from matrix import Dense, Diagonal
from stheno import EQ, GP, Delta, Linear, Measure, Normal, OneKernel, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

X, Z, U, V = np.array([0, 2, 3]), np.array([1, 4]), np.array([0, 3]), np.array([3, -1, 2])
KERNELS = {
    "EQ": lambda: EQ(),
    "Linear+Delta": lambda: Linear() + Delta(),
    "3*Delta": lambda: 3 * Delta(),
    "Linear": lambda: Linear(),
    "One+Delta": lambda: OneKernel() + Delta(),
}
MEANS = {"none": None, "number": 2, "integers": lambda x: 2 * x, "halves": lambda x: 0.5 * x}
OPS = {
    "p": lambda p: p,
    "2*p": lambda p: 2 * p,
    "p+1": lambda p: p + 1,
    "0.5*p": lambda p: 0.5 * p,
    "p+0.5": lambda p: p + 0.5,
    "x*p": lambda p: (lambda x: x + 1) * p,
    "shift": lambda p: p.shift(1),
    "stretch": lambda p: p.stretch(2),
    "stretch/2": lambda p: p.stretch(0.5),
    "cross": lambda p: cross(p, 0.5 * p),
}
NOISES = {
    "none": lambda c, n: None,
    "1": lambda c, n: c(np.array(1)).item(),
    "half": lambda c, n: 0.5,
    "np.half": lambda c, n: np.float64(0.5),
    "0d": lambda c, n: c(np.array(2)),
    "vector": lambda c, n: c(np.arange(1, n + 1)),
    "halves": lambda c, n: np.arange(1, n + 1) / 2,
    "matrix": lambda c, n: c(3 * np.eye(n, dtype=int) + 1),
    "Diagonal": lambda c, n: Diagonal(c(np.arange(1, n + 1))),
}
APPROX = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}


def _float(a):
    return a.astype(float)


def _same(a):
    return a


def normal_views(d, y, regular):
    d.mean_is_zero
    r = {
        "mean": d.mean, "var": d.var, "var_diag": d.var_diag, "mean_var": d.mean_var[1], "m2": d.m2,
        "marginals": np.stack(d.marginals()), "bounds": np.stack(d.marginal_credible_bounds()),
        "diagonalised": d.diagonalise().var, "half": (0.5 * d).var, "half mean": (d + 0.5).mean, "quarter": (d / 4).mean,
        "double": (2 * d).var,
    }
    if regular:
        r.update({"logpdf": d.logpdf(y), "logpdfs": d.logpdf(np.stack([y, 2 * y], 1)), "entropy": d.entropy(), "missing": d.logpdf(np.where(y == y[0], np.nan, y))})
        r["sample"] = d.sample(B.create_random_state(np.float64, seed=3))[1]
    r["noisy sample"] = d.sample(B.create_random_state(np.float64, seed=3), noise=0.5)[1]
    r["noisy samples"] = d.sample(B.create_random_state(np.float64, seed=3), 2, noise=2)[1]
    return r


def check(cx, got, want, what):
    for k in want:
        cx.close(got[k], B.dense(want[k]), f"{k} {what}", 1e-7)
        cx.check(np.asarray(B.dense(got[k])).dtype.kind in "if", f"type of {k} {what}")
    cx.state([np.ravel(B.dense(want["mean"])), np.ravel(B.dense(want["var"]))])


def processes(noises, ops, kernels, means, uses):
    def run(kernel, mean, op, noise, use, cs):
        cx_, cn, cy = cs
        m = Measure()
        p = GP(KERNELS[kernel](), measure=m) if MEANS[mean] is None else GP(MEANS[mean], KERNELS[kernel](), measure=m)
        q = OPS[op](p)
        x, z = cx_(X), cx_(Z)
        n = 2 * len(X) if op == "cross" else len(X)
        y = cy(np.resize(V, n) + np.arange(n))
        e = NOISES[noise](cn, n)
        f = q(x) if e is None else q(x, e)
        if use == "views":
            regular = e is not None or kernel in ("EQ", "3*Delta") and op not in ("cross", "0*p")
            return normal_views(f, y, regular)
        if use == "exact":
            post = m | (f, y)
        elif use == "missing":
            post = m | (f, np.where(np.arange(n) == 1, np.nan, y))
        else:
            o = APPROX[use](p(cx_(U)), f, y)
            post = m | o
        g, h = post(p)(z, e if np.ndim(e) == 0 and not isinstance(e, Diagonal) else 1), post(q)(z)
        r = normal_views(g, cy(np.array([1, 3])), True)
        r.update({"other mean": h.mean, "other var": h.var, "cross": post.kernels[p, q](x, z), "prior": m.kernels[p, q](z, x)})
        if use in APPROX:
            r["bound"] = o.elbo(m)
        return r

    def program(cx):
        use = cx.pick(uses, "use")
        kernel, mean = cx.pick(kernels, "kernel"), cx.pick(means, "mean")
        op, noise = cx.pick(ops, "operation"), cx.pick(noises, "noise")
        which = cx.pick(["all", "inputs", "noise", "observations"], "integers")
        if use == "exact" and noise == "none" or use in APPROX and (noise in ("none", "matrix") or kernel == "Linear"):
            return
        if which == "noise" and noise in ("none", "half", "np.half", "halves") or use == "missing" and which == "observations":
            return
        cs = [_same if which in ("all", w) else _float for w in ("inputs", "noise", "observations")]
        if use == "missing" and noise == "none":
            return
        want = run(kernel, mean, op, noise, use, [_float] * 3)
        check(cx, run(kernel, mean, op, noise, use, cs), want, "of integers")
        cx.step(2)

    return program


# -- normal distributions -------------------------------------------------------------------------------------
_S = np.array([[5, 1, -1], [1, 4, 2], [-1, 2, 3]])
VARS = {
    "dense": lambda c: c(_S),
    "Dense": lambda c: Dense(c(_S)),
    "Diagonal": lambda c: Diagonal(c(np.array([2, 3, 1]))),
    "lazy": lambda c: (lambda: c(_S)),
}
MUS = {"omitted": None, "column": lambda c: c(np.array([[1], [-2], [3]])), "zero": lambda c: 0}
_M = np.array([[1, 2, 0], [0, -1, 1], [3, 1, 1]])
OTHERS = {
    "none": lambda d, o, c: d,
    "sum": lambda d, o, c: d + o,
    "difference": lambda d, o, c: d - o,
    "lmatmul": lambda d, o, c: d.lmatmul(c(_M)),
    "rmatmul": lambda d, o, c: d.rmatmul(c(_M)),
    "+column": lambda d, o, c: d + c(np.array([[1], [2], [3]])),
    "*3": lambda d, o, c: d * 3,
    "/2": lambda d, o, c: d / 2,
}


def normals(cx):
    var, mu, other, op = cx.pick(list(VARS), "var"), cx.pick(list(MUS), "mean"), cx.pick(list(VARS), "other"), cx.pick(list(OTHERS), "operation")
    which = cx.pick(["all", "first", "second"], "integers")

    def run(cs):
        d = _normal(MUS[mu], VARS[var], cs[0])
        o = _normal(MUS["column"], VARS[other], cs[1])
        e = OTHERS[op](d, o, cs[1])
        r = normal_views(e, cs[1](np.array([2, 0, -1])), True)
        r.update({"kl": e.kl(o), "kl back": o.kl(e), "w2": e.w2(o), "w2 back": o.w2(e)})
        return r

    want = run([_float, _float])
    check(cx, run([_same if which in ("all", w) else _float for w in ("first", "second")]), want, "of integers")
    cx.step(2)


def _normal(mu, var, c):
    v = var(c)
    if callable(v) and not hasattr(v, "shape"):
        return Normal(v) if mu is None else Normal(lambda: mu(c), v)
    if mu is None:
        return Normal(v)
    m = mu(c)
    return Normal(np.zeros((3, 1), dtype=int) if isinstance(m, int) else m, v)
