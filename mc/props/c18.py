"""C18: products match moments; derivative processes are derivatives."""
import lab as B
import numpy as np

from .. import structures
from ..engine import Prune
from ..world import OBS, XA, XB, Y, World, binary, rx, step_linear, unary

BOUNDS = {
    "quick": "products of all ordered pairs (also of a process with itself) of processes after one of 60 linear operations (fewer at two-dimensional inputs), without and with conditioning on a part and on the product, and in a "
             "posterior; one linear operation or one more product after a product; derivatives in every dimension of processes after one of 10 linear operations or a product, second derivatives and "
             "linear operations and products after a derivative, conditioned on the process and on the derivative; approximate derivatives of orders 1 to 3 with estimates of orders 4 to 8; "
             "structures: products of all pairs of processes with 6 kernels (constant, zero, low rank, diagonal) and 2 means, all views",
    "thorough": "two linear operations before a product; all linear operations before and after a derivative",
}
ASSUMPTIONS = [
    "the covariance between two products is the one of the moment-matched Gaussian processes, which leaves out terms of fourth order (documented approximation)",
    "derivative processes need TensorFlow, double precision and inputs of rank two (a limitation of a dependency); the reference differentiates views by central differences of eighth order",
]


def products(cx):
    w = World(cx)
    d = cx.choose(2, "dimension") + 1
    m = w.measure()
    f = w.base(m, "eq", d)
    g, place = cx.pick([("lin", "prior"), ("exp", "posterior")] + ([("exp", "prior"), ("lin", "posterior")] if cx.tier == "thorough" else []), "measure", show=False)
    g = w.base(m, g, d)
    if place == "posterior":
        post = w.observe(m, f, OBS[d][:2], 0.2, Y[:2])
        w.ps = [w.copy(post, f), w.copy(post, g)]
        m = post
    for _ in range(2 if cx.tier == "thorough" else 1):
        step_linear(w, cx, full=cx.tier != "thorough" and d == 1)
    ps = [p for p in w.ps if p.d == d]
    if len(ps) > 2 and cx.tier != "thorough":
        pairs = [(ps[-1], ps[-1]), (ps[0], ps[-1]), (ps[-1], ps[1])]
    else:
        pairs = [(p, q) for p in ps for q in ps]
    p, q = cx.pick(pairs, "product", show=False)
    r = w.product(p, q)
    if cx.fresh:
        w.compare(m, new=[r])
    how = cx.pick(["product", "a part"] if place == "prior" or cx.tier == "thorough" else ["product"], "conditioned on")
    post = w.observe(m, ps[-1] if how == "a part" else r, XB[d], 0.4, Y[:2])
    w.compare(post, new=[r], elwise=False, same_x=False)
    if how == "product":
        w.compare(post, new=ps[:1], elwise=False, same_x=False)


def after(cx):
    """Operations on products, and products of products."""
    w = World(cx)
    d = cx.choose(2, "dimension") + 1
    m = w.measure()
    f, g = w.base(m, "eq", d), w.base(m, "lin", d)
    h = w.lin(f.real - 0.5 * g.real, "h", (f, g), lambda X, a, b: a(X) + b(X).scale(-0.5))
    p, q = cx.pick([(f, g), (h, h), (g, h)], "product", show=False)
    r = w.product(p, q)
    then = cx.choose(2, "then")
    if then:
        s = w.product(*cx.pick([(r, f), (h, r), (r, r)], "product", show=False))
    else:
        w.ps, rest = [r, h], w.ps
        s = step_linear(w, cx)
        w.ps = rest + [s]
    if s.d != d:
        return
    w.compare(m, new=[s])
    post = w.observe(m, s, XB[d], 0.4, Y[:2])
    w.compare(post, new=[r, f], elwise=False, same_x=False)


# -- derivatives ---------------------------------------------------------------------------------------------
STENCIL = [(s * (i + 1), s * c) for i, c in enumerate([4 / 5, -1 / 5, 4 / 105, -1 / 280]) for s in (1, -1)]
H = 0.03


def weights(deriv, n=6, h=0.15):
    """Weights of a central difference for any derivative of functions of one input."""
    o = np.arange(-n, n + 1)
    A = np.array([o.astype(float) ** k for k in range(len(o))])
    b = np.zeros(len(o))
    b[deriv] = float(np.prod(np.arange(1, deriv + 1)))
    return list(zip(o * h, np.linalg.solve(A, b) / h**deriv))


def higher(deriv):
    def view(X, a):
        out = None
        for o, c in weights(deriv):
            v = a(X + o).scale(c)
            out = v if out is None else out + v
        return out

    return view


def derivative(dim):
    """The derivative of a view by central differences."""

    def view(X, a):
        e = np.zeros(X.shape[1])
        e[dim] = H
        out = None
        for o, c in STENCIL:
            v = a(X + o * e).scale(c / H)
            out = v if out is None else out + v
        return out

    return view


def compare(cx, w, m, new, tf, what=""):
    t = lambda X: tf.constant(X)
    parts = []
    for p in new:
        X, Z = XA[p.d], XB[p.d]
        want = m.m(p, X)
        cx.close(m.real.means[p.real](t(X)), want[:, None], f"{what}mean of {p}")
        parts.append(want)
        for q in w.ps:
            if not m.has(q) or q.d != p.d:
                continue
            want = m.k(p, X, q, Z)
            cx.close(m.real.kernels[p.real, q.real](t(X), t(Z)), want, f"{what}covariance between {p} and {q}")
            if q is not p:
                cx.close(m.real.kernels[q.real, p.real](t(Z), t(X)), want.T, f"{what}covariance between {q} and {p}")
            parts.append(want)
            if q is p:
                K = m.k(p, X, p, X)
                cx.close(m.real.kernels[p.real](t(X)), K, f"{what}variance of {p}")
                cx.close(m.real.kernels[p.real].elwise(t(X)), np.diag(K)[:, None], f"{what}element-wise variance of {p}")
            else:
                want = np.diag(m.k(p, X, q, X + 0.1))[:, None]
                cx.close(m.real.kernels[p.real, q.real].elwise(t(X), t(X + 0.1)), want, f"{what}element-wise covariance of {p} and {q}")
    cx.state([np.concatenate([np.ravel(a) for a in parts])])


def derivatives(cx):
    deep = cx.tier == "thorough"
    d = cx.choose(2, "dimension of inputs") + 1
    dim = cx.choose(d, "dimension")
    skip = ("select1of2", "fromscalar", "p*0", "p-p")
    before = [("none", None, None)] + [o for o in unary(d, deep) if o[3] is None and o[0] not in skip] + [("sum", None, None), ("product", None, None)]
    pre = cx.pick(before, "before")
    then = [("none", None, None), ("diff", None, None), ("diff other", None, None)] + [o for o in unary(d, deep) if o[3] is None and o[0] not in skip] + [("sum", None, None), ("product", None, None)]
    if not deep and pre[0] not in ("none", "sum"):
        # What follows a derivative does not depend on what preceded it.
        then = [then[(before.index(pre) + dim) % len(then)]]
    post = cx.pick(then, "after")
    how = cx.pick(["nothing", "the process", "the derivative"], "conditioned on")
    if cx.probe:
        raise Prune()
    from .c16 import Backend

    tf = Backend("tensorflow64").mod
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq", d), w.base(m, "lin", d)

    def act(o, p):
        if o[0] == "none":
            return p
        if o[0].startswith("diff"):
            i = dim if o[0] == "diff" else (dim + 1) % d
            return w.lin(p.real.diff(i), f"d{i}({p})", (p,), derivative(i))
        if o[0] == "sum":
            return w.lin(p.real - g.real, f"{p}-g", (p, g), lambda X, a, b: a(X) + b(X).scale(-1))
        if o[0] == "product":
            return w.product(p, g)
        return w.lin(o[1](p.real), f"{o[0]}[{p}]", (p,), o[2])

    p = act(pre, f)
    q = w.lin(p.real.diff(dim) if dim or cx.fresh else p.real.diff(), f"d{dim}({p})", (p,), derivative(dim))
    r = act(post, q)
    w.ps = [x for i, x in enumerate(w.ps) if x not in w.ps[:i]]
    if how == "nothing":
        compare(cx, w, m, [q, r] if r is not q else [q], tf)
        return
    o = p if how == "the process" else r
    if how == "the derivative" and post[0] in ("diff", "diff other"):
        w.ps = [f, q, r]  # Expensive in the reference.
    from ..ref import RM, RObs

    X, y = OBS[d], np.array([0.7, -0.35, 1.25, -0.6])
    real = m.real | (o.real(tf.constant(X), tf.constant(0.3, tf.float64)), tf.constant(y))
    cond = RM(m, RObs(o, X, 0.3 * np.eye(4), y), real)
    w.ms.append(cond)
    cx.step()
    w.ps = [f, r] if r is not q else [f, q]
    compare(cx, w, cond, [r], tf, "posterior ")
    # Evidence of observing the derivative.
    cx.close(m.real.logpdf((o.real(tf.constant(X), tf.constant(0.3, tf.float64)), tf.constant(y))), m.logpdf(o, X, 0.3 * np.eye(4), y), "evidence")


def approximate(cx):
    deriv = cx.choose(3, "derivative") + 1
    order = cx.pick([o for o in (4, 5, 6, 7, 8) if o > deriv], "order")
    what = cx.pick(["f", "g", "f-g", "stretched", "product", "posterior"], "of")
    if cx.probe:
        raise Prune()
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq"), w.base(m, "lin")
    p = f
    if what == "g":
        p = g
    elif what == "f-g":
        p = w.lin(f.real - g.real, "f-g", (f, g), lambda X, a, b: a(X) + b(X).scale(-1))
    elif what == "stretched":
        p = w.lin(f.real.stretch(1.8), "stretched", (f,), lambda X, a: a(X / 1.8))
    elif what == "product":
        p = w.product(f, g)
    elif what == "posterior":
        m = w.observe(m, g, OBS[1][:2], 0.2, Y[:2])
        f, p = w.copy(m, f), w.copy(m, g)
    real = p.real.diff_approx(deriv, order) if cx.fresh else p.real.diff_approx(deriv=deriv, order=order)
    q = w.lin(real, f"d^{deriv}({p})", (p,), higher(deriv))
    w.ps = [p, f, q] if p is not f else [p, q]
    # The step size trades off the errors of rounding and of truncation.
    tol = {1: 1e-3, 2: 5e-3, 3: 3e-2}[deriv] * (30 if order - deriv < 3 else 1)
    w.compare(m, new=[q], tol=tol)


def harnesses(tier):
    deep = tier == "thorough"
    return {"products": products, "after products": after, "derivatives": derivatives, "approximate": approximate,
            "structures": structures.products(list(structures.KERNELS) if deep else ["EQ", "number", "0", "Linear", "Delta", "f*Delta"], ["function", "none"])}
