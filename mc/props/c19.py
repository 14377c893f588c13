"""C19: reported structure is truthful."""
import lab as B
import numpy as np
import stheno
from matrix import Dense, Diagonal, Zero
from mlkernels import EQ, Exp, Linear, PosteriorKernel, SubspaceKernel, num_elements
from stheno import FDD, GP, AmbiguousDimensionalityKernel as ADK, Measure, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, combine, cross, dimensionality, infer_size

from ..engine import Prune
from ..ref import RM, RObs, Tag
from ..world import OBS, XA, XB, Y, World, binary, rx, step_linear, unary
from .c13 import A, ALL, B_, C, lift, setting, specs, w_parts

BOUNDS = {
    "quick": "sizes at 13 to 16 input specifications (plain, tagged, nested) of 11 multi-output processes and their parts in 3 settings, before and after 14 operations (scaling, sums, warps, "
             "exact and inducing-point conditioning, nesting); dimensionalities of all kernel expressions of depth 2 over 6 leaves and 12 constructors; 24 forms of inputs; stationarity of all "
             "pairs of processes after two linear operations and one (thorough: every) of products, Cartesian products and conditioning; attributes for 12 inputs x 8 noises x 3 types",
    "thorough": "kernel expressions of depth 3; three linear operations for stationarity",
}
ASSUMPTIONS = [
    "a multi-output process scaled by zero or cancelled exactly loses its number of outputs (its kernel or mean simplifies to zero in a dependency), which is not explored",
    "warps of a multi-output process act on plain inputs",
    "element-wise evaluation of sums of differently nested multi-output processes is rejected by the library",
]


# -- sizes of processes --------------------------------------------------------------------------------------
def rows(cx, m, p, what, x, n, full=True, elwise=True):
    """The inferred size of `p` at `x` is `n` and `n` rows are produced there."""
    k = m.real.kernels[p.real]
    cx.step(4)
    cx.check(int(m.real(p.real)(x).dim) == n, lambda: f"dimension of {what}: {m.real(p.real)(x).dim}, expected {n}")
    cx.check(int(infer_size(k, x)) == n, lambda: f"size of {what}: inferred {infer_size(k, x)}, expected {n}")
    if full:
        cx.check(tuple(B.shape(m.real.means[p.real](x))) == (n, 1), lambda: f"mean of {what}: {B.shape(m.real.means[p.real](x))}, inferred {n}")
        cx.check(tuple(B.shape(k(x))) == (n, n), lambda: f"covariance of {what}: {B.shape(k(x))}, inferred {n}")
        if elwise:
            cx.check(tuple(B.shape(k.elwise(x))) == (n, 1), lambda: f"element-wise covariance of {what}: {B.shape(k.elwise(x))}, inferred {n}")


def then(w, m, c, f, g, d, op):
    """Processes of which the outputs are those of `c` (measure, process, only at plain inputs?)."""
    same = cross(*[q.real for q in w_parts(c, m)][::-1])
    warps = ("shift", "stretch", "transform", "select")
    if op in warps:
        real = {"shift": lambda: c.real.shift(0.5), "stretch": lambda: c.real.stretch(2.0), "transform": lambda: c.real.transform(lambda x: 2 * x), "select": lambda: c.real.select(*range(d))}[op]()
        return m, w.lin(real, f"{op}({c})", (c,), lambda X, a: a(X)), True
    if op in ("2*", "/", "-", "+"):
        real = {"2*": lambda: 2 * c.real, "/": lambda: c.real / 3, "-": lambda: -c.real, "+": lambda: c.real + 2 * same}[op]()
        return m, w.lin(real, f"{op}({c})", (c,), lambda X, a: a(X)), False
    if op == "nested":
        return m, w.cross(c, f, c), False
    if op == "copy":
        return m, w.copy(m, c), False
    post = m
    for kind in op.split(" > "):
        post = condition(w, post, c, f, g, d, kind)
    return post, w.copy(post, c), False


def condition(w, m, c, f, g, d, op):
    y = Y[:2]
    X = OBS[d][:2]
    if op == "exact":
        return w.observe(m, f, X, 0.3, y)
    if op == "exact g":
        return w.observe(m, g, X + 0.1, 0.3, y)
    if op == "exact c":
        return w.observe(m, c, X - 0.2, 0.3, np.resize(Y, len(m.at(c, X))))
    cls, u = {"pseudo c": (PseudoObsFITC, c), "pseudo": (PseudoObs, g), "dtc": (PseudoObsDTC, f)}[op]
    real = m.real.condition(cls(u.real(rx(OBS[d][2:])), f.real(rx(X), 0.3), y))
    return w.posterior(m, RObs(f, X, 0.3 * np.eye(2), y), real)


TWICE = ["exact", "exact g", "exact c", "pseudo", "pseudo c", "dtc"]
OPS = ["none", "2*", "/", "-", "+", "shift", "stretch", "transform", "select", "nested", "copy", "exact", "exact c", "pseudo", "pseudo c", "dtc"] + [f"{a} > {b}" for a in TWICE for b in TWICE]


def sizes(cx):
    w, m, f, g, h, c, inner, d = setting(cx, ALL)
    if m is not c.home:
        # `c` itself, under the posterior.
        c = w.copy(m, c)
        c.comps_of = m
        op = "none"
    else:
        few = cx.tier == "quick" and (w_parts(c, m)[1:] == [] or c.label not in ("cross(lin,eq)", "cross(lin,cross(eq,h))"))
        op = cx.pick([o for o in OPS if not few or ">" not in o], "then")
    total = c.out
    base = c
    plain = False
    if op != "none":
        m, c, plain = then(w, m, c, f, g, d, op)
        total = total * (2 if op == "nested" else 1) + (op == "nested")
    k = m.real.kernels[c.real]
    cx.check(dimensionality(k) == total, f"dimensionality of {c}: {dimensionality(k)}, expected {total}")
    cx.check(dimensionality(m.real.kernels[f.real]) == 1, f"dimensionality of {f}")
    for q in (f, h):
        for a, b in [(c, q), (q, c)]:
            n = dimensionality(m.real.kernels[a.real, b.real])
            cx.check(n is None or n == total == 1, f"dimensionality of the covariance between {a} and {b}: {n}")
    original = base if base in w.ms[0].comps or any(base in x.comps for x in w.ms) else w.ps[-2]
    ms = [x for x in w.ms if original in x.comps]
    if not ms:
        raise AssertionError("no product")
    ss = [s for s in specs(ms[0], original, inner, d) if not plain or isinstance(s[1][1], np.ndarray)]
    if op != "none" and cx.tier == "quick":
        ss = ss[:: 2 if ">" not in op else 3]
    seen = []
    for name, (x, s) in ss:
        n = _len(ms[0], original, s, total)
        rows(cx, m, c, f"{c} at {name}", x, n, elwise=op != "+" or base.label.count(",") < 2)
        seen.append(n)
        if isinstance(x, tuple) or isinstance(x, FDD):
            # Tagged inputs have the size of the process they are tagged with, for any kernel.
            if _all_tagged(s):
                cx.check(int(infer_size(m.real.kernels[f.real], x)) == n, f"size at {name} for the kernel of {f}")
    cx.state([total, seen, op])


def _all_tagged(s):
    return isinstance(s, Tag) or isinstance(s, tuple) and all(map(_all_tagged, s))


def _len(m, c, s, total):
    """Rows at a specification: plain inputs have a row for every output."""
    if isinstance(s, tuple):
        return sum(_len(m, c, t, total) for t in s)
    if isinstance(s, Tag):
        return _len(m, s.p, s.x, s.p.out)
    return len(s) * total


# -- dimensionalities of kernel expressions --------------------------------------------------------------------
def expressions(cx):
    m = Measure()
    f, g = GP(EQ(), measure=m), GP(Linear(), measure=m)
    leaves = [
        ("1", lambda: EQ(), 1), ("2", lambda: cross(f, g).kernel, 2), ("2b", lambda: cross(g, g).kernel, 2), ("3", lambda: cross(f, cross(f, g)).kernel, 3),
        ("?1", lambda: ADK(Exp()), None), ("?2", lambda: ADK(cross(f, g).kernel), None),
    ]
    un = [
        ("2*", lambda k: 2 * k), ("stretch", lambda k: k.stretch(2)), ("stretch0", lambda k: k.stretch(2, 1)), ("shift", lambda k: k.shift(1, 0)), ("transform", lambda k: k.transform(None, lambda x: x)),
        ("select", lambda k: k.select([0])), ("periodic", lambda k: k.periodic(1)), ("reversed", lambda k: reversed(k)), ("diff", lambda k: k.diff(0)),
    ]
    bi = [("+", lambda a, b: a + b), ("*", lambda a, b: a * b), ("subspace", lambda a, b: SubspaceKernel(a, b, None, 0)), ("posterior=", lambda a, b: PosteriorKernel(a, b, b, None, 0))]
    Bad = "inconsistent"

    def merge(*ds):
        if Bad in ds:
            return Bad
        ds = {d for d in ds if d is not None}
        return Bad if len(ds) > 1 else ds.pop() if ds else None

    def build(depth):
        kinds = ["leaf"]
        if depth > 0:
            kinds += [("un", i) for i in range(len(un))] + [("bi", i) for i in range(len(bi))] + ["posterior", "ambiguous"]
        kind = cx.pick(kinds, "kernel", show=False)
        if kind == "leaf":
            n, k, d = cx.pick(leaves, "leaf")
            return k(), d
        if kind == "ambiguous":
            k, d = build(depth - 1)
            return ADK(k), None
        if kind == "posterior":
            parts = [build(0) for _ in range(3)]
            return PosteriorKernel(*[p[0] for p in parts], None, 0), merge(*[p[1] for p in parts])
        if kind[0] == "un":
            cx.labels[-1] = un[kind[1]][0]
            k, d = build(depth - 1)
            return un[kind[1]][1](k), d
        cx.labels[-1] = bi[kind[1]][0]
        (a, d), (b, e) = build(depth - 1), build(0 if cx.tier == "quick" else depth - 1)
        return bi[kind[1]][1](a, b), merge(d, e)

    k, d = build(2)
    cx.step()
    x = [np.array(0.3), np.ones(2), np.ones((3, 1)), np.ones((2, 4, 2))]
    n = [1, 2, 3, 4]
    if d is None:
        cx.check(dimensionality(k) is None, f"dimensionality is {dimensionality(k)}, but cannot be inferred")
    elif d == Bad:
        cx.raises(RuntimeError, lambda: dimensionality(k), "inconsistent dimensionalities")
    else:
        cx.check(dimensionality(k) == d, f"dimensionality is {dimensionality(k)}, expected {d}")
    for xi, ni in list(zip(x, n)) + [((x[1], x[2]), 5), ((x[1], (x[0], (x[2],)), x[1]), 8)]:
        if d is None or d == Bad:
            cx.raises(RuntimeError, lambda: infer_size(k, xi), "size")
        else:
            cx.check(int(infer_size(k, xi)) == ni * d, f"size is {infer_size(k, xi)}, expected {ni * d}")
    # Tagged inputs do not need the dimensionality of the kernel.
    c = cross(f, g)
    for xi, ni in [(f(x[1]), 2), (c(x[2]), 6), ((c(x[1]), f(x[2])), 7), (c((f(x[1]), c(x[1]))), 6), (FDD(id(f), x[2]), 3)]:
        cx.check(int(infer_size(k, xi)) == ni, f"size at tagged inputs is {infer_size(k, xi)}, expected {ni}")
    if d is None or d == Bad:
        cx.raises(RuntimeError, lambda: infer_size(k, (f(x[1]), x[1])), "size at mixed inputs")
    else:
        cx.check(int(infer_size(k, (f(x[1]), x[1]))) == 2 + 2 * d, "size at mixed inputs")
    cx.state([str(d)])


def elements(cx):
    """Numbers of elements of inputs."""
    m = Measure()
    f, g = GP(EQ(), measure=m), GP(Linear(), measure=m)
    c = cross(f, g)
    leaves = [
        ("0.3", 0.3, 1), ("3", 3, 1), ("0d", np.array(0.5), 1), ("empty", np.zeros(0), 0), ("1", np.zeros(1), 1), ("5", np.zeros(5), 5), ("(4,1)", np.zeros((4, 1)), 4), ("(4,3)", np.zeros((4, 3)), 4), ("(0,2)", np.zeros((0, 2)), 0),
        ("(2,3,1)", np.zeros((2, 3, 1)), 3), ("(2,5,3,2)", np.zeros((2, 5, 3, 2)), 3), ("f32", np.zeros(2, np.float32), 2),
    ]
    n1, x, n = cx.pick(leaves, "x")
    n2, y, k = cx.pick(leaves, "y")
    forms = [
        ("x", x, n), ("f(x)", f(x), n), ("c(x)", c(x), n), ("(x, y)", (x, y), n + k), ("(f(x), y)", (f(x), y), n + k), ("((x,), (c(y), x))", ((x,), (c(y), x)), 2 * n + k), ("(x, (y, (x, y)))", (x, (y, (x, y))), 2 * n + 2 * k),
        ("c((f(x), g(y)))", c((f(x), g(y))), n + k), ("c(c((x, y)))", FDD(c, FDD(c, (x, y), 0.1)), n + k), ("()", (), 0), ("FDD(id, x)", FDD(id(f), x), n), ("(FDD(id, (x, y)), x)", (FDD(id(f), (x, y)), x), 2 * n + k),
        ("f(x, noise)", f(x, 0.3), n),
    ]
    for name, z, want in forms:
        cx.check(int(num_elements(z)) == want, lambda: f"number of elements of {name} for {n1}, {n2} is {num_elements(z)}, expected {want}")
    # Rows of a process of two outputs.
    for name, z, want in [("c", c(x), 2 * n), ("f", f(x), n), ("c of tagged", c((f(x), g(y))), n + k), ("c of mixed", c((f(x), y)), n + 2 * k), ("nested", c(c((g(x), y))), n + 2 * k)]:
        if np.ndim(x) > 2 or np.ndim(y) > 2 and "y" in name:
            continue
        cx.check(int(z.dim) == want if np.ndim(y) < 3 and _same(x, y) else True, lambda: f"dimension of {name} for {n1}, {n2} is {z.dim}, expected {want}")
        cx.check(int(infer_size(z.p.kernel, z.x)) == want, f"size of {name} for {n1}, {n2}")
    cx.step()
    cx.state([n, k])


def _same(x, y):
    d = lambda a: a.shape[-1] if np.ndim(a) > 1 else 1
    return d(x) == d(y)


# -- stationarity ----------------------------------------------------------------------------------------------
def stationary(cx):
    w = World(cx)
    d = cx.choose(2, "dimension") + 1
    m = w.measure()
    f, g = w.base(m, "eq", d), w.base(m, cx.pick(["lin", "exp"] if cx.tier == "thorough" else [["lin", "exp"][d - 1]], "second"), d)
    for i in range(2 if cx.tier == "quick" else 3):
        step_linear(w, cx, full=i == 0)
    p = w.ps[-1]
    if p.d != d:
        raise Prune()
    pre = w.ps[-2]
    ps = [q.real for q in w.ps if q.d == d]
    last = cx.pick(["product", "cross", "posterior", "pseudo"], "last") if cx.tier == "thorough" else ["product", "cross", "posterior"][sum(cx.choices) % 3]
    ms = [m.real]
    if last == "product":
        ps += [p.real * f.real, p.real * p.real]
    elif last == "cross":
        ps += [cross(p.real, f.real), cross(f.real, f.real)]
    elif last == "posterior":
        post = m.real | (f.real(rx(OBS[d]), 0.2), Y)
        ms.append(post)
        ps += [post(f.real)]
    else:
        post = m.real.condition(PseudoObs(f.real(rx(OBS[d][:2])), f.real(rx(OBS[d]), 0.2), Y))
        ms.append(post)
        ps += [post(p.real)]
    X, Z = XA[d], XB[d]
    reported = []
    new = [q for q in ps if q is p.real or q is f.real] + ps[len([q for q in w.ps if q.d == d]):]
    for q in new:
        cx.check(q.stationary == q.kernel.stationary, "stationarity of a process is not the one of its kernel")
    for me in ms:
        for a in new:
            for b in ps:
                for q, r in [(a, b), (b, a)]:
                    if me not in q._measures or me not in r._measures:
                        continue
                    k = me.kernels[q, r]
                    s = bool(k.stationary)
                    reported.append(s)
                    cx.step()
                    if s:
                        want = B.dense(k(rx(X), rx(Z)))
                        for t in (0.7, -2.3):
                            cx.close(k(rx(X + t), rx(Z + t)), want, f"covariance of {w.ps} ({q}, {r}) reported to be stationary, translated by {t}")
    cx.check(f.real.stationary, "an exponentiated-quadratic process is not reported to be stationary")
    cx.state(reported)


# -- attributes of finite-dimensional distributions ------------------------------------------------------------
def attributes(cx):
    types = [np.float64, np.float32, np.int64]
    T = cx.pick([("float64", types[0]), ("float32", types[1]), ("mixed", None)], "type")[1]
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq"), w.base(m, "lin")
    c = cross(f.real, g.real)
    post = m.real | (f.real(np.array([0.1, 0.6]), 0.2), np.array([0.3, -0.4]))
    t1, t2 = (T, T) if T else (np.float32, np.float64)
    x, y = np.array([0.31, -0.94, 1.57], t1), np.array([0.5, 2.0], t2)
    P = {"f": f.real, "derived": 2 * f.real - g.real, "posterior": post(f.real), "c": c, "posterior c": post(c)}
    which = cx.pick(list(P), "process")
    p = P[which]
    multi = "c" in which.split()
    o = 2 if multi else 1
    xs = {"vector": (x, 3 * o, t1), "column": (x[:, None], 3 * o, t1), "scalar": (x[0], o, t1), "second": (y, 2 * o, t2)}
    if multi:
        hi = np.promote_types(t1, t2)
        xs.update({
            "tagged": (f.real(x), 3, t1), "tuple": ((f.real(x), g.real(y)), 5, hi), "mixed": ((y, f.real(x)), 7, hi), "nested": ((g.real(y), (f.real(x), (y,))), 9, hi), "tagged with itself": (c((g.real(x), f.real(y))), 5, hi),
            "noisy": ((f.real(x, 0.5), g.real(y, 0.1)), 5, hi),
        })
    nx = cx.pick(list(xs), "inputs")
    X, n, dt = xs[nx]
    v = (np.arange(n) + 1.0) / 10
    S = np.diag(v) + 0.01
    noises = {
        "omitted": (), "none": (None,), "0.5": (0.5,), "1": (1,), "0d": (np.array(0.5, dt),), "vector": (v.astype(dt),), "matrix": (S.astype(dt),), "Diagonal": (Diagonal(v.astype(dt)),), "Dense": (Dense(S.astype(dt)),), "Zero": (Zero(dt, n, n),),
    }
    nz = cx.pick(list(noises), "noise")
    noise = noises[nz]
    N = {"omitted": 0 * S, "none": 0 * S, "0.5": 0.5 * np.eye(n), "1": np.eye(n), "0d": 0.5 * np.eye(n), "vector": np.diag(v), "matrix": S, "Diagonal": np.diag(v), "Dense": S, "Zero": 0 * S}[nz]
    fdd = p(X, *noise)
    cx.step()

    def same(fdd, p, what, exact=True):
        cx.check(isinstance(fdd, FDD), f"{what}: {type(fdd)}")
        cx.check(fdd.p is p, f"{what}: process")
        cx.check(fdd.x is X, f"{what}: inputs")
        cx.close(fdd.noise, N, f"{what}: noise")
        cx.check(B.dtype(fdd) == dt, lambda: f"{what}: data type {B.dtype(fdd)}, expected {dt}")
        cx.check(B.dtype(fdd.noise) == dt, lambda: f"{what}: data type of the noise {B.dtype(fdd.noise)}, expected {dt}")
        cx.check(int(fdd.dim) == n, lambda: f"{what}: dimension {fdd.dim}")
        cx.check(int(num_elements(fdd)) == _elements(X), f"{what}: number of elements")

    same(fdd, p, "distribution")
    if noise and isinstance(noise[0], (Diagonal, Dense, Zero)):
        cx.check(fdd.noise is noise[0], "structured noise is not kept")
    if len(noise) < 2:
        same(FDD(p, X, *noise), p, "explicit distribution")
    # The data type has to be right before and after evaluation.
    fdd.mean, fdd.var
    same(fdd, p, "distribution after evaluation")
    if which in ("f", "c", "derived"):
        for me in (m.real, post):
            mapped = me(fdd)
            cx.check(mapped.p is not p and mapped.p.measure is me, "mapped distribution: measure of the process")
            same(mapped, mapped.p, "mapped distribution")
    # By the identifier of a process.
    i = FDD(id(p), X)
    cx.check(i.p == id(p) and i.x is X and i.noise is None, "distribution by identifier")
    cx.check(B.dtype(i) == dt and int(num_elements(i)) == _elements(X), "distribution by identifier: data type and number of elements")
    # Observations report the distributions they were made from.
    if nx in ("vector", "column", "tuple", "scalar"):
        vals = np.ones(n, dt)
        ob = Obs(fdd, vals)
        cx.check(ob.fdd is fdd or (ob.fdd.p is p and ob.fdd.x is X), "observations: distribution")
        cx.close(ob.y, np.ones((n, 1)), "observations: values")
        other = p.measure(f.real)(y) if "posterior" in which else f.real(y)
        both = Obs((fdd, vals), (other, np.zeros(2, dt)))
        cx.check(int(both.fdd.dim) == n + 2, "joint observations: dimension")
        cx.check(len(both.fdd.x) == 2 and both.fdd.x[0].p is p and both.fdd.x[1].p is other.p, "joint observations: processes")
        cx.check(both.fdd.x[0].x is X and both.fdd.x[1].x is other.x, "joint observations: inputs")
        W = np.zeros((n + 2, n + 2))
        W[:n, :n] = N
        cx.close(both.fdd.noise, W, "joint observations: noise")
        cx.close(both.y, np.concatenate([np.ones(n), np.zeros(2)])[:, None], "joint observations: values")
    cx.state([which, nx, nz, str(dt)])


def _elements(x):
    if isinstance(x, tuple):
        return sum(map(_elements, x))
    if isinstance(x, FDD):
        return _elements(x.x)
    return 1 if np.ndim(x) == 0 else len(x)


def harnesses(tier):
    return {"sizes": sizes, "expressions": expressions, "elements": elements, "stationary": stationary, "attributes": attributes}
