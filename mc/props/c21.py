"""C21: the text of a distribution tells what it is, and looking at it changes nothing."""
import numpy as np
import stheno
from stheno import EQ, GP, Linear, Measure, Normal, Obs, cross

from .. import text
from ..engine import dense
from ..world import OBS, XA, XB, Y, World, rx, step_linear

BOUNDS = {
    "quick": "processes: all sequences of two linear operations of the full alphabet (about 30 unary operations per process, 4 binary) over two "
             "base processes in one and two dimensions, alone and in all Cartesian products with a base process, displayed with and without a "
             "formatter; vectors: all sequences of 3 of 12 queries of 9 kinds of random vectors, with text after every query",
    "thorough": "three operations of the core alphabet as well; sequences of 4 queries",
}


def denotes(cx, w, m, real, parts, plain):
    """The text of `real` denotes the means and kernels of `parts` under `m`."""
    t = str(real) if plain else real.display(text.tagged)
    try:
        ms, ks = text.read_process(t, plain)
    except text.Unreadable as e:
        cx.fail(f"text {t!r} cannot be read{'' if plain else ' with all numbers formatted'}: {e}")
    cx.check(len(ms) == len(parts) and len(ks) == len(parts), f"{t!r} has {len(ms)} means and {len(ks)} kernels")
    for p, mu, k in zip(parts, ms, ks):
        X, Z = XA[p.d], XB[p.d]
        cx.close(np.broadcast_to(mu(X), len(X)), m.m(p, X), f"mean in the text {t!r}", 1e-9)
        cx.close(np.broadcast_to(k(X, Z), (len(X), len(Z))), m.k(p, X, p, Z), f"kernel in the text {t!r}", 1e-9)
    return t


def processes(d, depth, full):
    def program(cx):
        w = World(cx)
        m = w.measure()
        for key in ("eq", "lin"):
            w.base(m, key, d)
        for i in range(depth):
            p = step_linear(w, cx, full=full)
            if not cx.fresh:
                continue
            before = [str(q.real) for q in w.ps[:-1]]
            n = len(m.real.ps)
            for q in [p] if i else w.ps:
                cx.check(str(q.real) == repr(q.real) == q.real.display() == q.real.display(lambda x: x), f"texts of {q}")
                denotes(cx, w, m, q.real, [q], True)
                denotes(cx, w, m, q.real, [q], False)
            cx.check([str(q.real) for q in w.ps[:-1]] == before and len(m.real.ps) == n, "looking changes nothing")
            cx.state([str(p.real)])
            for parts in [[p, w.ps[0]]] if i else [[p], [p, w.ps[0]], [w.ps[1], p], [p, p, w.ps[0]]]:
                if len({q.d for q in parts}) > 1:
                    continue
                c = cross(*[q.real for q in parts])
                if not i:
                    denotes(cx, w, m, c, parts, True)
                denotes(cx, w, m, c, parts, False)

    return program


# -- random vectors -----------------------------------------------------------------------------------------
def _vectors():
    X, Z = rx(XA[1]), rx(XB[1])

    def fdd(noise, how="prior", mean=0.8):
        def make(log):
            m = Measure()

            def mu(x):
                log.append("mean")
                return np.cos(x).reshape(-1, 1)

            p = GP(mean if mean is not None else mu, 1.3 * EQ() + 0.2 * Linear(), measure=m)
            if how == "post":
                m = m | (p(Z, 0.1), np.array([0.3, -0.4]))
                p = m(p)
            if how == "cross":
                p = cross(p, 2 * p)
            return p(X) if noise is None else p(X, noise)
        return make

    def lazy(zero):
        def make(log):
            def mean():
                log.append("mean")
                return np.array([[1.5], [-2.5]])

            def var():
                log.append("var")
                return np.array([[2.25, 0.5], [0.5, 1.75]])

            def var_diag():
                log.append("var_diag")
                return np.array([2.25, 1.75])

            return Normal(var) if zero else Normal(mean, var, var_diag=var_diag)
        return make

    return [
        ("Normal", lambda log: Normal(np.array([[1.5], [-2.5]]), np.array([[2.25, 0.5], [0.5, 1.75]]))),
        ("Normal-zero", lambda log: Normal(np.array([[2.25, 0.5], [0.5, 1.75]]))),
        ("lazy", lazy(False)),
        ("lazy-zero", lazy(True)),
        ("fdd", fdd(None)),
        ("fdd-noise", fdd(0.25)),
        ("fdd-function", fdd(0.25, mean=None)),
        ("fdd-post", fdd(0.25, "post")),
        ("fdd-cross", fdd(0.25, "cross")),
    ]


QUERIES = [
    ("str", str),
    ("repr", repr),
    ("mean", lambda v: v.mean),
    ("var", lambda v: v.var),
    ("var_diag", lambda v: v.var_diag),
    ("mean_var", lambda v: v.mean_var),
    ("marginals", lambda v: v.marginals()),
    ("dim", lambda v: v.dim),
    ("dtype", lambda v: v.dtype),
    ("mean_is_zero", lambda v: v.mean_is_zero),
    ("logpdf", lambda v: v.logpdf(np.zeros(v.dim))),
    ("+1", lambda v: v + 1),
]


def _flat(t):
    return " ".join(t.split())


def vectors(depth):
    vs = _vectors()

    def program(cx):
        label, make = cx.pick(vs, "vector")
        queries = [cx.pick(QUERIES, "query") for _ in range(depth)]
        # The text never asks for anything: the same history without texts makes the same computations.
        looked, silent = [], []
        v, u = make(looked), make(silent)

        def look():
            n = len(looked)
            s, r = str(v), repr(v)
            cx.check(len(looked) == n, "the text computes something")
            return s, r

        look()
        for name, q in queries:
            q(v)
            s, r = look()
            if name not in ("str", "repr"):
                q(u)
            cx.check(looked == silent, f"computations {looked} with texts, {silent} without")
            cx.step()
        if isinstance(v, stheno.FDD):
            cx.check(_flat(f"<FDD: process={v.p}, input={v.x}, noise={v.noise}>") == _flat(s), f"text {s!r}")
            cx.check(_flat(f"<FDD: process={v.p!r}, input={v.x!r}, noise={v.noise!r}>") == _flat(r), f"text {r!r}")
            cx.close(v.noise, 0.25 * np.eye(v.dim) if label != "fdd" else np.zeros((v.dim, v.dim)), "noise that is displayed")
        else:
            names = {name for name, _ in queries}
            # Queries for which the mean and the variance are certainly known, or certainly not needed.
            lazy_ = label.startswith("lazy")
            if not lazy_ or names & {"mean_var", "logpdf"}:
                cx.check("unresolved" not in s + r, f"text {s!r}")
            elif not names - {"str", "repr"}:
                for t in (s, r):
                    cx.check(_flat(t) == "<Normal: mean=unresolved, var=unresolved>", f"text {t!r}")
            elif lazy_ and "var" not in looked and "mean" in looked:
                for t in (s, r):
                    cx.check(_flat(t).endswith("var=unresolved>") and "mean=unresolved" not in t, f"text {t!r}")
            elif label == "lazy" and "mean" not in looked and "var" in looked:
                for t in (s, r):
                    cx.check("mean=unresolved" in t and "var=unresolved" not in t, f"text {t!r}")
            # Once they are known, the text shows them.
            mean, var = v.mean, v.var
            for f in (str, repr):
                cx.check(_flat(f(v)) == _flat(f"<Normal: mean={f(mean)}, var={f(var)}>"), f"text {f(v)!r}")
        cx.state([s])

    return program


def unattached(cx):
    """Processes without a measure, and texts of processes of several measures."""
    cx.check(str(GP.__new__(GP, )) if False else str(GP()) == repr(GP()) == GP().display() == "GP()", "text of a process without a measure")
    w = World(cx)
    m = w.measure()
    p = w.base(m, "eq")
    q = w.base(m, "lin")
    first = cx.pick([p, q], "observed")
    how = cx.pick(["condition", "copy-of-copy", "name", "other"], "then")
    before = {r.label: str(r.real) for r in w.ps}
    post = w.observe(m, first, OBS[1], 0.3, Y)
    if how == "copy-of-copy":
        w.copy(post, p), w.copy(post, q)
        w.observe(post, w.ps[-1], XA[1], 0.3, Y[:3])
    if how == "name":
        m.real.name(p.real, "p")
        post.real.name(p.real, "p") if p.real in post.real.ps else None
    if how == "other":
        w.copy(post, p)
        w.lin(2 * p.real, "2p", (p,), lambda X, a: a(X).scale(2))
        denotes(cx, w, m, w.ps[-1].real, [w.ps[-1]], False)
    for r in (p, q):
        cx.check(str(r.real) == before[r.label], f"{r} is displayed as under its own measure")
        denotes(cx, w, m, r.real, [r], False)
    cx.state([str(r.real) for r in w.ps])
    # The text of a process of the posterior tells it from the prior.
    for r in w.ps[2:]:
        if r.home is post:
            cx.check(str(r.real) not in before.values(), f"{r} is displayed as a process of the prior")


def harnesses(tier):
    deep = tier == "thorough"
    h = {
        "processes-1d": processes(1, 2, True),
        "processes-2d": processes(2, 2, True),
        "vectors": vectors(4 if deep else 3),
        "measures": unattached,
    }
    if deep:
        h["core-1d"] = processes(1, 3, False)
    return h
