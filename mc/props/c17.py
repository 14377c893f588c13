"""C17: selecting from a distribution by a mask selects exactly those elements."""
import lab as B
import numpy as np
from matrix import Dense, Diagonal, Zero
from stheno import FDD, cross

from ..ref import Tag
from ..world import World, rx
from .c13 import A, B_, C, lift, setting, w_parts

BOUNDS = {
    "quick": "all masks (and all masks of what is left) of 15 forms of inputs of up to 5 elements (plain, tagged, tuples nested to depth 3) of 10 processes (one, derived, "
             "posterior and multi-output, nested products, 1 and 2 input dimensions) x 6 forms of noise; 12 selections that have to be rejected",
    "thorough": "inputs of up to 7 elements",
}
ASSUMPTIONS = ["selecting from processes derived from multi-output processes (scaled, conditioned) is not supported by the library: it raises, which is checked"]


def take(a, mask):
    return [v for v, t in zip(a, mask) if t]


def noises(n):
    v = np.array([0.2, 0.45, 0.3, 0.6, 0.25, 0.7, 0.5])[:n]
    M = np.diag(v) + 0.03 * np.cos(np.arange(n)[:, None] * np.arange(n)[None, :])
    M = (M + M.T) / 2
    return {
        "none": (None, np.zeros((n, n)), Zero), "scalar": (0.35, 0.35 * np.eye(n), Diagonal), "vector": (v, np.diag(v), Diagonal), "matrix": (M, M, Dense),
        "Diagonal": (Diagonal(v), np.diag(v), Diagonal), "Dense": (Dense(M), M, Dense),
    }


def forms(m, c, inner, d):
    """Input specifications (name, real, reference) of a process: for one output and for several."""
    L = lambda X: lift(X, d)
    r = lambda X: rx(L(X))
    plain = lambda X: (r(X), L(X))
    tup = lambda *ss: (tuple(s[0] for s in ss), tuple(s[1] for s in ss))
    out = [("A", plain(A)), ("B", plain(B_)), ("column A", (L(A), L(A)))]
    if c in getattr(m, "comps", {}):
        ps = w_parts(c, m)
        p, q = ps[0], ps[-1]
        t = lambda o, X: (o.real(r(X)), Tag(o, L(X)))
        out += [
            ("p(A)", t(p, A)), ("q(C)", t(q, C)), ("(q(A), p(B))", tup(t(q, A), t(p, B_))), ("(p(A), q(A))", tup(t(p, A), t(q, A))),
            ("(q(B), A)", tup(t(q, B_), plain(A))), ("((p(A),), (q(B), p(B)))", tup(tup(t(p, A)), tup(t(q, B_), t(p, B_)))),
            ("(((q(C),),), p(B))", tup(tup(tup(t(q, C))), t(p, B_))), ("(B, p(B), B)", tup(plain(B_), t(p, B_), plain(B_))),
        ]
        if inner is not None and inner in ps:
            f, h = w_parts(inner, m)
            out += [
                ("inner(A)", t(inner, A)), ("inner((h(A), B))", (inner.real((h.real(r(A)), r(B_))), Tag(inner, (Tag(h, L(A)), L(B_))))),
                ("(inner((f(B), h(A))), q(B))", tup((inner.real((f.real(r(B_)), h.real(r(A)))), Tag(inner, (Tag(f, L(B_)), Tag(h, L(A))))), t(q, B_))),
            ]
    else:
        out += [("C", plain(C)), ("column C", (L(C), L(C)))]
    if d == 1:
        out.append(("scalar", (0.31, np.array([[0.31]]))))
    return out


def compare(cx, dist, p, mu, K, N, cls, what):
    n = len(mu)
    cx.check(isinstance(dist, FDD), f"{what}: result is {type(dist)}")
    cx.check(dist.p is p.real, f"{what}: the process is another one")
    cx.close(dist.noise, N, f"{what}: noise")
    cx.check(isinstance(dist.noise, cls), f"{what}: noise has become {type(dist.noise)}")
    cx.close(dist.mean, mu[:, None], f"{what}: mean")
    cx.close(dist.var, K + N, f"{what}: variance")
    cx.close(dist.var_diag, np.diag(K + N), f"{what}: variances")
    cx.check(int(dist.dim) == n, f"{what}: dimension {dist.dim}")


def masks(cx):
    kind = cx.pick(["f", "derived", "f,g", "f,f", "h,g,h", "(f,h),g", "f,g 2d"], "process")
    if kind in ("f", "derived"):
        w = World(cx)
        m = w.measure()
        d = cx.choose(2, "dimension") + 1
        f, g = w.base(m, "eq", d), w.base(m, "lin", d)
        c = f if kind == "f" else w.lin((2 * f.real - g.real).shift(0.3), "h", (f, g), lambda X, a, b: a(X - 0.3).scale(2) + b(X - 0.3).scale(-1))
        if cx.choose(2, "posterior"):
            m = w.observe(m, g, lift(C, d), 0.3, np.array([0.5, -0.4, 1.0]))
            c = w.copy(m, c)
        inner = None
    else:
        w, m, f, g, h, c, inner, d = setting(cx, [kind])
        if m is not c.home:
            cx.choose(0)  # Observed products are another process: see `rejected`.
    fs = [s for s in forms(m, c, inner, d) if len(m.at(c, s[1][1])) <= (5 if cx.tier == "quick" else 7)]
    name, (xr, xs) = cx.pick(fs, "inputs")
    v = m.at(c, xs)
    n = len(v)
    nz = cx.pick(list(noises(n)), "noise")
    noise, N, cls = noises(n)[nz]
    mask = cx.choose(2**n, "mask")
    mask = np.array([bool(mask >> i & 1) for i in range(n)])
    mu, K = m.mean(v), m.cov(v, v)
    dist = c.real(xr, noise)
    before = cx.choose(2, "evaluated before") if n <= 2 else int(np.sum(mask)) % 2
    if before:
        compare(cx, dist, c, mu, K, N, cls, "distribution")
    sub = B.take(dist, mask)
    cx.step()
    ix = np.flatnonzero(mask)
    s = np.ix_(ix, ix)
    what = f"elements {ix.tolist()}"
    compare(cx, sub, c, mu[ix], K[s], N[s], cls, what)
    a, b = c.real(sub.x, sub.noise).marginals()
    cx.close(a, mu[ix], f"{what}: marginal means")
    cx.close(b, np.diag(K + N)[ix], f"{what}: marginal variances")
    cx.close(m.real.kernels[c.real, f.real](sub.x, rx(lift(C, d))), m.cov(v.take(ix), m.at(f, lift(C, d))), f"{what}: covariance with another process")
    if len(ix) and np.linalg.eigvalsh(K[s] + N[s])[0] > 1e-2:
        y = np.cos(1.0 + ix)
        from ..ref import logpdf

        cx.close(sub.logpdf(y), logpdf(mu[ix], K[s] + N[s], y), f"{what}: log-density")
    # The distribution itself stays as it is.
    compare(cx, dist, c, mu, K, N, cls, "distribution afterwards")
    # Selecting again.
    if len(ix) and isinstance(sub.x, tuple) or len(ix) > 1:
        m2 = (np.arange(len(ix)) + len(ix)) % 2 == 0
        i2 = ix[m2]
        s2 = np.ix_(i2, i2)
        compare(cx, B.take(sub, m2), c, mu[i2], K[s2], N[s2], cls, f"elements {i2.tolist()} of {ix.tolist()}")
    cx.state(mu[ix], K[s])


def rejected(cx):
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq"), w.base(m, "lin")
    h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
    c = w.cross(f, g)
    x = rx(C)
    noise = [None, 0.2][cx.choose(2, "noise")]
    dist = {"f": lambda: f.real(x, noise), "c": lambda: c.real(x[:2], noise), "tagged": lambda: c.real((g.real(x[:2]), f.real(x)), noise)}[cx.pick(["f", "c", "tagged"], "of")]()
    n = int(dist.dim)
    what = cx.pick(["list", "tuple", "array", "int", "float array", "slice", "scalar", "foreign", "foreign second", "not an output", "derived plain", "derived tagged", "posterior plain", "posterior tagged", "sum plain", "other measure"], "selection")
    ints = [0, n - 1]
    mask = np.arange(4) % 2 == 0
    tagged = (f.real(x[:2]), g.real(x[:2]))
    other = cross(*cx_other(w))
    post = m.real | (h.real(rx(A), 0.2), np.array([0.5, -0.5]))
    cx.step()
    calls = {
        "list": (Exception, lambda: B.take(dist, ints)), "tuple": (Exception, lambda: B.take(dist, tuple(ints))), "array": (AssertionError, lambda: B.take(dist, np.array(ints))),
        "int": (AssertionError, lambda: B.take(dist, np.arange(n))), "float array": (AssertionError, lambda: B.take(dist, np.ones(n))), "slice": (Exception, lambda: B.take(dist, slice(0, 2))),
        "scalar": (AssertionError, lambda: B.take(dist, 1)),
        "foreign": (ValueError, lambda: B.take(c.real((h.real(x[:2]), g.real(x[:2])), noise), mask)), "foreign second": (ValueError, lambda: B.take(c.real((f.real(x[:2]), h.real(x[:2])), noise), mask)),
        "not an output": (ValueError, lambda: B.take(c.real(h.real(x), noise), mask[:3])),
        "derived plain": (Exception, lambda: B.take((2 * c.real)(x[:2], noise), mask)), "derived tagged": (Exception, lambda: B.take((2 * c.real)(tagged, noise), mask)),
        "posterior plain": (Exception, lambda: B.take(post(c.real)(x[:2], noise), mask)), "posterior tagged": (Exception, lambda: B.take(post(c.real)(tagged, noise), mask)),
        "sum plain": (Exception, lambda: B.take((c.real + cross(g.real, f.real))(x[:2], noise), mask)),
        "other measure": (ValueError, lambda: B.take(c.real((other.measure and f.real(x[:2]), _first(other)(x[:2])), noise), mask)),
    }
    exc, call = calls[what]
    cx.raises(exc, call, f"selection by {what}")
    # Whatever was rejected, the distribution is as before.
    cx.check(int(dist.dim) == n and len(B.take(dist, np.ones(n, bool)).var_diag) == n, "distribution after a rejected selection")
    cx.state([what])


def cx_other(w):
    m = w.measure()
    return w.base(m, "eq").real, w.base(m, "exp").real


def _first(c):
    return c.kernel.ps[0]


def harnesses(tier):
    return {"masks": masks, "rejected": rejected}
