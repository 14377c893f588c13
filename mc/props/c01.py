"""C01: composed processes have the exact joint distribution."""
import numpy as np

from ..ref import k_eq
from .. import structures
from ..world import OBS, XA, XB, Y, World, rx, step_linear, unary
from stheno import EQ, GP, Measure

BOUNDS = {
    "quick": "all sequences of two operations out of the full alphabet (about 30 unary operations per process, 4 binary per pair) "
             "over two base processes, in one and two input dimensions; all sequences of three operations out of the core alphabet; "
             "processes given directly by add_gp, with and without a right rule, before and after other operations and conditioning; "
             "structures: 25 kernels (constant, low rank, diagonal, zero, products and sums of these) x 14 operations, and 8 kinds of means x 5 kernels x 14 operations, with all views for 6 kinds of noise",
    "thorough": "three operations of the full alphabet, four of the core alphabet",
}


def build(d, depth, full, keys=("eq", "lin")):
    def prog(cx):
        w = World(cx)
        m = w.measure()
        for k in keys:
            w.base(m, k, d)
        if cx.fresh:
            w.compare(m)
        for i in range(depth):
            p = step_linear(w, cx, full=full)
            if cx.fresh:
                w.compare(m, new=[p], elwise=full)
    return prog


def added(cx):
    """Processes that are given directly, by their mean, kernel and covariances with the other processes."""
    w = World(cx)
    m = w.measure()
    for k in ("eq", "lin"):
        w.base(m, k, 1)
    if cx.pick([False, True], "posterior"):
        post = w.observe(m, w.ps[1], OBS[1], 0.3, Y)
        for p in w.ps[:2]:
            w.copy(post, p)
        w.ps, m = w.ps[2:], post
    a, b = w.ps
    op = cx.pick(["none", "sum", "shift"], "before")
    if op == "sum":
        w.lin(a.real - b.real, "difference", (a, b), lambda X, a, b: a(X) + b(X).scale(-1))
    elif op == "shift":
        w.lin(b.real.shift(0.6), "shifted", (b,), lambda X, a: a(X - 0.6))
    p = cx.pick(w.ps, "of")
    both = cx.pick([False, True], "right rule")
    first = cx.pick(["left", "right"], "first")
    means, kernels, made = m.real.means, m.real.kernels, {}

    def right(i):
        return made.setdefault(i, 2 * kernels[i, p.real])

    args = (2 * means[p.real] + 1.5, 4 * kernels[p.real], lambda j: 2 * kernels[p.real, j])
    q = m.real.add_gp(*args, right) if both else m.real.add_gp(*args)
    q = w.lin(q, "added", (p,), lambda X, a: a(X).scale(2).shift(1.5))
    q.home = m
    cx.check(q.real.measure is m.real, "measure of an added process")
    for r in w.ps[:-1]:
        if first == "left":
            w.same_cov(m, q, r)
        w.same_cov(m, r, q)
        if both:
            cx.check(any(kernels[r.real, q.real] is k for k in made.values()), "the covariance on the right is that of the given rule")
    w.compare(m, new=[q])
    then = cx.pick(["sum", "scale", "stretch", "observe"], "then")
    if then == "sum":
        n = w.lin(q.real + a.real, "sum", (q, a), lambda X, a, b: a(X) + b(X))
    elif then == "scale":
        n = w.lin(-3 * q.real, "scaled", (q,), lambda X, a: a(X).scale(-3))
    elif then == "stretch":
        n = w.lin(q.real.stretch(1.8), "stretched", (q,), lambda X, a: a(X / 1.8))
    else:
        m, n = w.observe(m, q, OBS[1][:3], 0.2, Y[:3]), None
    w.compare(m, new=[n] if n else None)


def harnesses(tier):
    deep = tier == "thorough"
    h = {
        "full-1d": build(1, 3 if deep else 2, True),
        "full-2d": build(2, 2, True),
        "core-1d": build(1, 4 if deep else 3, False),
    }
    h["added"] = added
    few = ["EQ", "number", "Linear", "Delta", "0"]
    h["structures"] = structures.structured(list(structures.KERNELS), ["function"] + (["none"] if deep else []), ["prior"])
    h["means"] = structures.structured(list(structures.KERNELS) if deep else few, list(structures.MEANS), ["prior"])
    return h
