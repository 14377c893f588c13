"""C09: views of a distribution agree in every access order."""
import lab as B
import numpy as np
from matrix import Constant, Dense, Diagonal, Kronecker, LowRank, Woodbury, Zero
from stheno import EQ, GP, Linear, Measure, Normal, cross

BOUNDS = {
    "quick": "about 60 ways to make a distribution (values, matrix structures, functions, all subsets of joint constructors, omitted and zero "
             "means, finite-dimensional distributions of priors, posteriors and products, results of arithmetic; dimensions 1 and 3) x "
             "all sequences of 3 of 12 views, followed by all views twice; all mixed data types of 6 kinds of means and 5 kinds of variances, cast to both",
    "thorough": "sequences of 4 views",
}

M3 = np.array([[0.7], [-1.2], [0.4]])
A3 = np.array([[1.3, 0.2, -0.4], [0.0, 0.9, 0.3], [0.0, 0.0, 1.1]])
K3 = A3 @ A3.T + 0.1 * np.eye(3)
D3 = np.array([0.5, 1.5, 2.5])
L3 = np.array([[0.4], [1.0], [-0.7]])
X = np.array([0.3, -1.1, 1.9])


def constructions():
    c = {}
    z = np.zeros((3, 1))
    # Values.
    for ml, m, rm, zero in [
        ("col", M3, M3, False), ("Dense", Dense(M3), M3, False), ("0", 0, z, True), ("Zero", Zero(float, 3, 1), z, True), ("zeros", z, z, None),
        ("Constant", Constant(0.6, 3, 1), np.full((3, 1), 0.6), False),
    ]:
        for vl, v, rv in [
            ("np", K3, K3), ("Dense", Dense(K3), K3), ("Diagonal", Diagonal(D3), np.diag(D3)),
            ("Woodbury", Diagonal(D3) + LowRank(L3), np.diag(D3) + L3 @ L3.T),
        ]:
            c[f"Normal({ml}, {vl})"] = (lambda m=m, v=v: Normal(m, v), rm, rv, zero)
    c["Normal(var)"] = (lambda: Normal(K3), z, K3, True)
    c["Normal(Diagonal)"] = (lambda: Normal(Diagonal(D3)), z, np.diag(D3), True)
    c["Normal(Zero)"] = (lambda: Normal(M3, Zero(float, 3, 3)), M3, np.zeros((3, 3)), False)
    c["Normal(LowRank)"] = (lambda: Normal(LowRank(L3)), z, L3 @ L3.T, True)
    KK = np.kron(K3[:2, :2], K3)
    c["Normal(Kronecker)"] = (lambda: Normal(Kronecker(Dense(K3[:2, :2]), Dense(K3))), np.zeros((6, 1)), KK, True)
    c["float32"] = (lambda: Normal(M3.astype(np.float32), K3.astype(np.float32)), M3, K3, False)
    c["float32 var"] = (lambda: Normal(K3.astype(np.float32)), z, K3, True)
    # Functions, with all subsets of the optional constructors.
    for bits in range(8):
        for ml, m, rm, zero in [("col", M3, M3, False), ("0", 0, z, True), ("Zero", Zero(float, 3, 1), z, True)]:
            kw = {}
            v = K3 if bits % 2 else Dense(K3)
            if bits & 1:
                kw["var_diag"] = lambda: np.diag(K3).copy()
            if bits & 2:
                kw["mean_var"] = lambda m=m: (m, K3)
            if bits & 4:
                kw["mean_var_diag"] = lambda m=m: (m, np.diag(K3).copy())
            c[f"Normal(fn {ml}, {bits})"] = (lambda m=m, v=v, kw=kw: Normal(lambda: m, lambda: v, **kw), rm, K3, zero)
    c["Normal(var fn)"] = (lambda: Normal(lambda: K3), z, K3, True)
    c["Normal(var fn, all)"] = (
        lambda: Normal(lambda: K3, var_diag=lambda: np.diag(K3), mean_var=lambda: (0, K3), mean_var_diag=lambda: (0, np.diag(K3))), z, K3, True)
    # One dimension.
    c["1d"] = (lambda: Normal(np.array([[0.4]]), np.array([[2.0]])), np.array([[0.4]]), np.array([[2.0]]), False)
    c["1d zero"] = (lambda: Normal(Diagonal(np.array([2.0]))), np.zeros((1, 1)), np.array([[2.0]]), True)
    # Finite-dimensional distributions.
    e = lambda x, y: np.exp(-0.5 * (x[:, None] - y[None, :]) ** 2)
    K = e(X, X)
    c["fdd"] = (lambda: GP(EQ())(X), z, K, None)
    c["fdd noise"] = (lambda: GP(EQ())(X, 0.3), z, K + 0.3 * np.eye(3), None)
    c["fdd vector noise"] = (lambda: GP(1.5, EQ())(X, D3), np.full((3, 1), 1.5), K + np.diag(D3), False)
    c["fdd matrix noise"] = (lambda: GP(lambda x: x**2, EQ())(X, K3), (X**2)[:, None], K + K3, False)
    c["fdd linear"] = (lambda: GP(lambda x: x, Linear())(X, 0.2), X[:, None], np.outer(X, X) + 0.2 * np.eye(3), False)
    c["fdd one input"] = (lambda: GP(2, EQ())(X[:1], 0.2), np.array([[2.0]]), np.array([[1.2]]), False)
    c["fdd scalar"] = (lambda: GP(2, EQ())(0.3, 0.2), np.array([[2.0]]), np.array([[1.2]]), False)
    wt = 2 + X**2  # Structured element-wise variances: f(x) (1 + x^2) + f(x).

    def weighted():
        p = GP(1, EQ())
        return (p * (lambda x: 1 + x**2) + p)(X, 0.3)

    c["fdd weighted sum"] = (weighted, wt[:, None], wt[:, None] * wt * K + 0.3 * np.eye(3), False)
    xo, yo = np.array([0.0, 1.0]), np.array([[0.5], [-0.3]])
    Ko = np.linalg.inv(e(xo, xo) + 0.1 * np.eye(2))
    pm = 1 + e(X, xo) @ Ko @ (yo - 1)
    pK = K - e(X, xo) @ Ko @ e(xo, X)

    def posterior(noise=None):
        p = GP(1, EQ())
        return (p | (p(xo, 0.1), yo))(X, noise)

    c["posterior fdd"] = (posterior, pm, pK, False)
    c["posterior fdd noise"] = (lambda: posterior(0.4), pm, pK + 0.4 * np.eye(3), False)

    def mapped():
        p = GP(1, EQ())
        return (p.measure | (p(xo, 0.1), yo))(p(X, D3))

    c["mapped fdd"] = (mapped, pm, pK + np.diag(D3), False)

    def product():
        m = Measure()
        a, b = GP(1, EQ(), measure=m), GP(-1, 2 * EQ(), measure=m)
        return cross(a, a + b)(X[:2], 0.1)

    k2 = K[:2, :2]
    c["product fdd"] = (product, np.array([[1.0], [1], [0], [0]]), np.block([[k2, k2], [k2, 3 * k2]]) + 0.1 * np.eye(4), False)
    # Results of arithmetic.
    c["2n"] = (lambda: 2 * Normal(M3, K3), 2 * M3, 4 * K3, False)
    c["-0"] = (lambda: -Normal(K3), z, K3, None)
    c["n+n"] = (lambda: Normal(K3) + Normal(M3, Diagonal(D3)), M3, K3 + np.diag(D3), False)
    c["diagonalise"] = (lambda: Normal(M3, K3).diagonalise(), M3, np.diag(np.diag(K3)), False)
    c["lmatmul"] = (lambda: Normal(M3, K3).lmatmul(A3[:2]), A3[:2] @ M3, A3[:2] @ K3 @ A3[:2].T, False)
    # Numerical noise.
    c["negative"] = (lambda: Normal(lambda: M3, lambda: np.diag([1e-13, 1, 2.0]), var_diag=lambda: np.array([-1e-13, 1, 2.0])), M3, np.diag([0, 1, 2.0]), False)
    c["negative joint"] = (
        lambda: Normal(lambda: M3, lambda: np.diag([1e-13, 1, 2.0]), mean_var_diag=lambda: (M3, np.array([-1e-13, 1, 2.0]))), M3, np.diag([0, 1, 2.0]), False)
    return c


CS = constructions()
VIEWS = ["mean", "var", "var_diag", "mean_var", "marginals", "bounds", "mean_is_zero", "m2", "dim", "dtype", "sample", "logpdf"]


def view(cx, name, d, m, K, zero, flags):
    n, dg = len(m), np.diag(K)
    if name == "mean":
        cx.close(d.mean, m, "mean")
    elif name == "var":
        cx.close(d.var, K, "var")
    elif name == "var_diag":
        cx.close(d.var_diag, dg, "var_diag")
    elif name == "mean_var":
        r = d.mean_var
        cx.check(isinstance(r, tuple) and len(r) == 2, "mean_var is not a pair")
        cx.close(r[0], m, "mean of mean_var")
        cx.close(r[1], K, "variance of mean_var")
    elif name in ("marginals", "bounds"):
        if name == "marginals":
            r = d.marginals()
            cx.check(len(r) == 2, "marginals are not a pair")
            cx.close(r[1], dg, "marginal variances")
            cx.check(np.all(np.asarray(r[1]) >= 0), "negative marginal variance")
        else:
            r = d.marginal_credible_bounds()
            cx.check(len(r) == 3, "credible bounds are not a triple")
            s = 1.96 * np.sqrt(np.maximum(dg, 0))
            cx.close(r[1], m[:, 0] - s, "lower bounds")
            cx.close(r[2], m[:, 0] + s, "upper bounds")
        cx.close(r[0], m[:, 0], "marginal means")
        cx.check(all(type(a) is np.ndarray for a in r), "marginals are not plain vectors")
    elif name == "mean_is_zero":
        r = bool(d.mean_is_zero)
        cx.check(not r or not m.any(), "a non-zero mean is flagged as zero")
        cx.check(zero is None or r == zero, f"mean_is_zero is {r}")
        cx.check(flags.setdefault("zero", r) == r, "mean_is_zero changed")
    elif name == "m2":
        cx.close(d.m2, K + m @ m.T, "m2")
    elif name == "dim":
        cx.check(int(d.dim) == n, f"dim is {d.dim}, expected {n}")
    elif name == "dtype":
        cx.check(np.issubdtype(d.dtype, np.floating), f"dtype is {d.dtype}")
        cx.check(flags.setdefault("dtype", d.dtype) == d.dtype, "dtype changed")
        cx.check(flags["label"].startswith("float32") == (d.dtype == np.float32), f"dtype is {d.dtype}")
    elif name == "sample":
        s = d.sample(np.random.RandomState(0), 2)[1]
        cx.check(np.shape(s) == (n, 2), f"shape of samples is {np.shape(s)}")
    elif name == "logpdf":
        if flags["pd"]:
            y = np.linspace(-1, 1, n)[:, None]
            r = y - m
            w = -0.5 * (r.T @ np.linalg.solve(K, r) + np.linalg.slogdet(K)[1] + n * np.log(2 * np.pi))
            cx.close(d.logpdf(y), w[0, 0], "logpdf", tol=1e-4)
        cx.close(B.dense(B.cast(np.float64, d).mean), m, "cast mean")
    cx.step()


def prog(depth, labels):
    def program(cx):
        label = cx.pick(labels, "construction")
        make, m, K, zero = CS[label]
        d = make()
        flags = dict(label=label, pd=np.linalg.eigvalsh(K)[0] > 1e-6)
        names = []
        for _ in range(depth):
            name = cx.pick(VIEWS, "view")
            names.append(name)
            view(cx, name, d, m, K, zero, flags)
        cx.state(label, tuple(sorted(set(names))))
        for order in (VIEWS, VIEWS[::-1]):
            for name in order:
                if name not in ("sample", "logpdf"):
                    view(cx, name, d, m, K, zero, flags)

    return program


T32, T64 = np.float32, np.float64
TYPES = {"float32": T32, "float64": T64}
MEANS = {
    "column": lambda t: M3.astype(t), "Dense": lambda t: Dense(M3.astype(t)), "Constant": lambda t: Constant(t(0.6), 3, 1), "Zero": lambda t: Zero(t, 3, 1), "0": lambda t: 0,
    "omitted": None,
}
VARS = {
    "matrix": lambda t: K3.astype(t), "Dense": lambda t: Dense(K3.astype(t)), "Diagonal": lambda t: Diagonal(D3.astype(t)),
    "Woodbury": lambda t: Diagonal(D3.astype(t)) + LowRank(L3.astype(t)), "Zero": lambda t: Zero(t, 3, 3),
}


def types(cx):
    """The data types of the mean and variance, and casting to a data type."""
    ml, vl = cx.pick(list(MEANS), "mean"), cx.pick(list(VARS), "variance")
    mt = cx.pick(["float64"] if ml in ("0", "omitted") else list(TYPES), "type of the mean")
    vt = cx.pick(list(TYPES), "type of the variance")
    late = cx.pick([False, True], "given as functions")
    first = cx.pick(["nothing", "dtype", "mean", "var", "cast"], "first asked")
    to = TYPES[cx.pick(list(TYPES), "cast to")]
    var = VARS[vl](TYPES[vt])
    K = np.array(B.dense(var), T64)
    if ml == "omitted":
        m = np.zeros((3, 1))
        d = Normal(lambda: var) if late else Normal(var)
    else:
        mean = MEANS[ml](TYPES[mt])
        m = np.zeros((3, 1)) if ml == "0" else np.array(B.dense(mean), T64)
        d = Normal(lambda: mean, lambda: var) if late else Normal(mean, var)
    # A mean which is not given as a number of some type does not have a say.
    want = TYPES[vt] if ml in ("0", "omitted") else np.promote_types(TYPES[mt], TYPES[vt])
    if first == "cast":
        B.cast(to, d)
    elif first != "nothing":
        getattr(d, first)
    cx.step()
    for _ in range(2):
        cx.check(B.dtype(d) == want, f"data type of mean in {mt} and variance in {vt} is {B.dtype(d)}")
        cx.check(d.dtype == TYPES[vt], f"dtype is {d.dtype}")  # That of the variance.
        c = B.cast(to, d)
        cx.check(isinstance(c, Normal), "the cast of a distribution is not a distribution")
        cx.check(B.dtype(c) == to, f"the cast has data type {B.dtype(c)}, expected {to}")
        cx.check(c.dtype == to, f"the cast has dtype {c.dtype}, expected {to}")
        for what, a, ref in (("mean", c.mean, m), ("variance", c.var, K), ("marginal means", c.marginals()[0], m[:, 0]), ("marginal variances", c.var_diag, np.diag(K))):
            cx.check(B.dtype(a) == to, f"{what} of the cast in {B.dtype(a)}")
            cx.close(np.array(B.dense(a), T64), ref, f"{what} of the cast", tol=1e-5)
        # The original is as it was.
        cx.close(np.array(B.dense(d.mean), T64), m, "mean after casting")
        cx.close(np.array(B.dense(d.var), T64), K, "variance after casting")
    cx.state(ml, vl, mt, vt, late, to)


def harnesses(tier):
    heavy = [c for c in CS if "fdd" in c]
    light = [c for c in CS if c not in heavy]
    d = 1 if tier == "thorough" else 0
    return {"types": types, "normals": prog(3 + d, light), "fdds": prog(2 + d, heavy)}
