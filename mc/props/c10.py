"""C10: Gaussian quantities and arithmetic are exact, for every structure of the mean and the covariance."""
import numpy as np
from matrix import Constant, Dense, Diagonal, Kronecker, LowRank, Woodbury, Zero
from stheno import Normal

BOUNDS = {
    "quick": "5 means x 8 covariances (dense, diagonal, zero, constant, constant plus diagonal, low rank, low rank plus diagonal, Kronecker) in dimension 4 "
             "and 1: all sequences of 2 of 23 affine operations with all quantities after each; all ordered pairs of distributions for sums, "
             "differences, KL and 2-Wasserstein, also of the results of an operation on one of them",
    "thorough": "sequences of 3 operations; pairs after an operation on each side",
}

G = np.array([[1.1, 0.3, -0.2, 0.5], [0.0, 0.8, 0.4, -0.3], [0.2, 0.0, 1.2, 0.1], [-0.4, 0.3, 0.0, 0.9]])
M = np.array([[0.7], [-1.2], [0.4], [2.0]])
K = G @ G.T + 0.2 * np.eye(4)
D = np.array([0.5, 1.5, 2.5, 0.8])
L = np.array([[0.4, 0.1], [1.0, -0.5], [-0.7, 0.2], [0.3, 0.9]])
KA = np.array([[1.4, 0.3], [0.3, 0.9]])
KB = np.array([[0.8, -0.2], [-0.2, 1.7]])
O = np.ones((4, 4))
Y = np.array([[0.3, -1.0, 0.1], [1.4, 0.2, -0.6], [-0.9, 0.5, 1.1], [0.8, 2.1, 0.4]])


def seeds():
    z = np.zeros((4, 1))
    means = [("col", lambda: M, M), ("Dense", lambda: Dense(M), M), ("0", lambda: 0, z), ("Zero", lambda: Zero(float, 4, 1), z), ("Constant", lambda: Constant(0.6, 4, 1), np.full((4, 1), 0.6))]
    covs = [
        ("dense", lambda: K, K), ("Diagonal", lambda: Diagonal(D), np.diag(D)), ("Zero", lambda: Zero(float, 4, 4), 0 * O), ("Constant", lambda: Constant(0.7, 4, 4), 0.7 * O),
        ("Constant+Diagonal", lambda: Constant(0.7, 4, 4) + Diagonal(D), 0.7 * O + np.diag(D)), ("LowRank", lambda: LowRank(L), L @ L.T),
        ("LowRank+Diagonal", lambda: LowRank(L) + Diagonal(D), L @ L.T + np.diag(D)), ("Kronecker", lambda: Kronecker(Dense(KA), Dense(KB)), np.kron(KA, KB)),
    ]
    out = {f"N({a}, {b})": (lambda m=m, v=v: Normal(m(), v()), rm, rv) for a, m, rm in means for b, v, rv in covs}
    out["N(fn, fn)"] = (lambda: Normal(lambda: M, lambda: K), M, K)
    out["N(var fn)"] = (lambda: Normal(lambda: Diagonal(D)), z, np.diag(D))
    one, two = np.array([[0.4]]), np.array([[2.2]])
    out["1: dense"] = (lambda: Normal(one, two), one, two)
    out["1: zero mean"] = (lambda: Normal(two), 0 * one, two)
    out["1: Diagonal"] = (lambda: Normal(Dense(one), Diagonal(np.array([2.2]))), one, two)
    out["1: LowRank+Diagonal"] = (lambda: Normal(one, Diagonal(np.array([1.0])) + LowRank(np.array([[1.5]]))), one, np.array([[3.25]]))
    return out


SEEDS = seeds()
P2 = np.array([[0.4, 1.0, -0.7, 0.3], [0.1, -0.5, 0.2, 0.9]])
P6 = np.vstack([G[:3], P2, G[3:]])


def unary():
    s = lambda c: (lambda m, v: (c * m, c * c * v))
    t = lambda c: (lambda m, v: (m + c, v))
    ops = [(f"{c!r}*n", (lambda n, c=c: c * n), s(float(c))) for c in (2, -0.5, 0, 1, np.float64(1.3), np.array(-0.7))]
    ops += [
        ("n*3", lambda n: n * 3, s(3.0)), ("n/4", lambda n: n / 4, s(0.25)), ("n/-0.4", lambda n: n / -0.4, s(-2.5)), ("n/2 (int)", lambda n: n / np.int64(2), s(0.5)), ("-n", lambda n: -n, s(-1.0)),
        ("n+1.5", lambda n: n + 1.5, t(1.5)), ("2+n", lambda n: 2 + n, t(2)), ("n-1", lambda n: n - 1, t(-1)), ("n+0", lambda n: n + 0, t(0)), ("3-n", lambda n: 3 - n, lambda m, v: (3 - m, v)),
        ("diagonalise", lambda n: n.diagonalise(), lambda m, v: (m, np.diag(np.diag(v)))), ("n+n", lambda n: n + n, lambda m, v: (2 * m, 2 * v)), ("n-n", lambda n: n - n, lambda m, v: (0 * m, 2 * v)),
    ]
    return ops


UNARY = unary()


def sized(n):
    """Operations that depend on the size."""
    col = np.resize(M, (n, 1)) * 0.3 + 0.1
    out = [(f"n+col", lambda d: d + col, lambda m, v: (m + col, v)), ("col-n", lambda d: (-d) + col, lambda m, v: (col - m, v)), ("n-col", lambda d: d - col, lambda m, v: (m - col, v))]
    mats = [("square", np.resize(G, (n, n)) if n > 4 else G[:n, :n]), ("wide", np.resize(P2, (2, n)) if n > 1 else np.array([[1.7]])), ("tall", np.resize(P6, (6, n))), ("row", np.resize(P2, (1, n)))]
    for l, A in mats:
        out.append((f"lmatmul {l}", lambda d, A=A: d.lmatmul(A), lambda m, v, A=A: (A @ m, A @ v @ A.T)))
        out.append((f"rmatmul {l}", lambda d, A=A: d.rmatmul(A.T), lambda m, v, A=A: (A @ m, A @ v @ A.T)))
    return out


def dense_enough(d):
    # `matrix` mishandles determinants and inverses of covariances that are represented with low rank and nothing else.
    return not isinstance(d.var, LowRank)


def pd(v):
    return np.linalg.eigvalsh(v)[0] > 1e-3


def ref_logpdf(m, v, x):
    r = x - m
    return -0.5 * (np.sum(r * np.linalg.solve(v, r), 0) + np.linalg.slogdet(v)[1] + len(m) * np.log(2 * np.pi))


def quantities(cx, d, m, v, what):
    n = len(m)
    cx.close(d.mean, m, f"{what}: mean")
    cx.close(d.var, v, f"{what}: variance")
    cx.close(d.var_diag, np.diag(v), f"{what}: variance diagonal")
    cx.close(d.m2, v + m @ m.T, f"{what}: second moment")
    a, b = d.marginals()
    cx.close(a, m[:, 0], f"{what}: marginal means")
    cx.close(b, np.diag(v), f"{what}: marginal variances")
    a, lo, up = d.marginal_credible_bounds()
    e = 1.96 * np.sqrt(np.maximum(np.diag(v), 0))
    if np.all((e == 0) | (e > 1e-3)):  # The square root amplifies rounding errors at zero.
        cx.close(lo, m[:, 0] - e, f"{what}: lower bounds")
        cx.close(up, m[:, 0] + e, f"{what}: upper bounds")
    cx.check(int(d.dim) == n, f"{what}: dimension {d.dim}")
    if pd(v) and dense_enough(d):
        x = np.resize(Y, (n, 3)) if n > 4 else Y[:n]
        w = ref_logpdf(m, v, x)
        cx.close(d.logpdf(x), w, f"{what}: log-density of three columns")
        cx.close(d.logpdf(x[:, :1]), w[0], f"{what}: log-density of a column")
        cx.close(d.logpdf(x[:, 1]), w[1], f"{what}: log-density of a vector")
        cx.close(d.entropy(), 0.5 * (np.linalg.slogdet(v)[1] + n * np.log(2 * np.pi * np.e)), f"{what}: entropy")
        cx.close(d.kl(d), 0.0, f"{what}: divergence from itself")
    cx.step(10)


def check_pair(cx, d, e, m, v, m2, v2, what):
    n = len(m)
    quantities(cx, d + e, m + m2, v + v2, f"{what}: sum")
    quantities(cx, d - e, m - m2, v + v2, f"{what}: difference")
    if pd(v) and pd(v2) and dense_enough(d) and dense_enough(e):
        iv = np.linalg.inv(v2)
        r = m2 - m
        kl = 0.5 * (np.trace(iv @ v) + (r.T @ iv @ r)[0, 0] - n + np.linalg.slogdet(v2)[1] - np.linalg.slogdet(v)[1])
        cx.close(d.kl(e), kl, f"{what}: KL divergence")
        s = sqrtm(v)
        w2 = np.sqrt(max(np.sum((m - m2) ** 2) + np.trace(v) + np.trace(v2) - 2 * np.trace(sqrtm(s @ v2 @ s)), 0))
        if w2 > 1e-3:
            cx.close(d.w2(e), w2, f"{what}: 2-Wasserstein distance")
        else:
            cx.close(d.w2(e), w2, f"{what}: 2-Wasserstein distance", tol=1e-4)
    cx.step(4)


def sqrtm(v):
    w, u = np.linalg.eigh((v + v.T) / 2)
    return (u * np.sqrt(np.maximum(w, 0))) @ u.T


def apply(cx, d, m, v, label):
    ops = UNARY + sized(len(m))
    o = cx.pick(ops, label)
    cx.step()
    return (o[1](d),) + tuple(o[2](m, v)) + (o[0],)


def sequences(depth):
    def prog(cx):
        label = cx.pick(list(SEEDS), "seed")
        make, m, v = SEEDS[label]
        d, what = make(), label
        if cx.fresh:
            quantities(cx, d, m, v, label)
        if cx.tier == "thorough" and cx.choose(2, "touch"):
            d.mean_var, d.marginals()
        for _ in range(depth):
            prev = (d, m, v, what)
            d, m, v, o = apply(cx, d, m, v, "op")
            what = f"{what} {o}"
            cx.state(m, v)
            if cx.fresh:
                quantities(cx, d, m, v, what)
                quantities(cx, *prev[:3], prev[3] + " (operand)")

    return prog


def pairs(left, right):
    def prog(cx):
        a = cx.pick(list(SEEDS), "left")
        b = cx.pick([s for s in SEEDS if s.startswith("1:") == a.startswith("1:")], "right")
        d, m, v = SEEDS[a][0](), *SEEDS[a][1:]
        e, m2, v2 = SEEDS[b][0](), *SEEDS[b][1:]
        some = [o for o in UNARY + sized(len(m)) if o[0] in ("-0.5*n", "n+col", "lmatmul square", "diagonalise", "0*n")]
        for side in range(2):
            if (left, right)[side]:
                o = cx.pick([("none", lambda x: x, lambda m, v: (m, v))] + some, "op")
                if side == 0:
                    d, (m, v) = o[1](d), o[2](m, v)
                else:
                    e, (m2, v2) = o[1](e), o[2](m2, v2)
        cx.state(m, v, m2, v2)
        check_pair(cx, d, e, m, v, m2, v2, "pair")

    return prog


def harnesses(tier):
    deep = tier == "thorough"
    return {"sequences": sequences(3 if deep else 2), "pairs": pairs(deep, True) if deep else pairs(False, False)}
