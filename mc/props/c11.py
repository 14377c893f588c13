"""C11: missing data mean exactly the absent observations."""
import numpy as np
from matrix import Dense, Diagonal
from stheno import Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, combine, cross

from ..ref import RM, RObs, Tag, logpdf
from ..world import OBS, XA, XB, Y, World, rx

BOUNDS = {
    "quick": "all NaN masks over 3 or 4 observed values x 12 shapes of observations (one process, derived, two-dimensional and scalar inputs, joint, "
             "multi-output plain, tagged and nested, in a posterior) x 5 forms of noise x all spellings of conditioning and evidence, exact and VFE/FITC/DTC",
    "thorough": "the same with all combinations of noise in joint observations and 5 values",
}
ASSUMPTIONS = ["processes derived from a multi-output process (scaled, conditioned) and observed at plain inputs with values missing are not supported by the "
               "library: this raises, which is checked; they are supported at tagged inputs"]

METHODS = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}
SHAPES = ["one", "derived", "2d", "scalar", "joint", "joint same", "multi plain", "multi tagged", "multi tagged reversed", "multi nested", "joint with multi", "posterior", "posterior joint"]


def noise(kind, n, o=0):
    v = np.array([0.2, 0.45, 0.3, 0.6, 0.25])[o : o + n]
    M = np.array([[0.5, 0.1, 0.05, -0.1, 0.02], [0.1, 0.4, 0.12, 0.07, 0], [0.05, 0.12, 0.6, 0.2, 0.1], [-0.1, 0.07, 0.2, 0.55, 0.05], [0.02, 0, 0.1, 0.05, 0.45]])[o : o + n, o : o + n]
    return {
        "scalar": (0.35, 0.35 * np.eye(n)), "vector": (v, np.diag(v)), "none": (None, np.zeros((n, n))), "matrix": (M, M),
        "Diagonal": (Diagonal(v), np.diag(v)), "Dense": (Dense(M), M),
    }[kind]


def build(cx, w, shape):
    """Measure, list of (process, real inputs, reference inputs, size, real process), processes to look at."""
    m = w.measure()
    d = 2 if shape == "2d" else 1
    f = w.base(m, "eq", d)
    g = w.base(m, "lin", d)
    X = OBS[d]
    many = cx.tier == "thorough"
    look = [f, g]
    if shape == "one" or shape == "2d":
        parts = [(f, rx(X), X)]
    elif shape == "derived":
        h = w.lin((f.real + 2 * g.real).shift(0.3), "h", (f, g), lambda X, a, b: a(X - 0.3) + b(X - 0.3).scale(2))
        parts = [(h, rx(X), X)]
        look.append(h)
    elif shape == "scalar":
        parts = [(f, 0.4, np.array([[0.4]]))]
    elif shape == "joint":
        parts = [(f, rx(X[:2]), X[:2]), (g, X[2:], X[2:])]
    elif shape == "joint same":
        parts = [(f, rx(X[2:]), X[2:]), (f, 0.4, np.array([[0.4]])), (f, rx(X[:1]), X[:1])]
    elif shape.startswith("multi") or shape == "joint with multi":
        h = w.lin(f.real - 1, "h", (f,), lambda X, a: a(X).shift(-1))
        c = w.cross(h, g)
        look.append(c)
        if shape == "multi plain":
            parts = [(c, rx(X[:2]), X[:2])]
        elif shape == "multi tagged":
            parts = [(c, (h.real(rx(X[:1])), g.real(rx(X[1:4]))), (Tag(h, X[:1]), Tag(g, X[1:4])))]
        elif shape == "multi tagged reversed":
            parts = [(c, (g.real(rx(X[:2])), h.real(rx(X[2:3])), g.real(X[3:])), (Tag(g, X[:2]), Tag(h, X[2:3]), Tag(g, X[3:])))]
        elif shape == "multi nested":
            parts = [(c, ((g.real(rx(X[:1])), (h.real(rx(X[1:2])),)), rx(X[2:3])), ((Tag(g, X[:1]), (Tag(h, X[1:2]),)), X[2:3]))]
        else:
            parts = [(f, rx(X[:1]), X[:1]), (c, rx(X[1:2]), X[1:2]), (g, rx(X[2:3]), X[2:3])]
    else:
        post = w.observe(m, g, np.array([[0.9], [-2.5]]), 0.3, np.array([0.4, -1.0]))
        pf = w.copy(post, g)
        e = w.base(post, "exp")
        h = w.lin(pf.real + e.real, "h", (pf, e), lambda X, a, b: a(X) + b(X))
        m, look = post, [pf, h]
        parts = [(h, rx(X), X)] if shape == "posterior" else [(pf, rx(X[:2]), X[:2]), (h, rx(X[2:]), X[2:])]
    return m, parts, look


def program(cx):
    w = World(cx)
    shape = cx.pick(SHAPES, "shape")
    method = cx.pick(["exact", "vfe", "fitc", "dtc"], "method")
    m, parts, look = build(cx, w, shape)
    diag = method != "exact"
    sizes = [len(m.at(p, s)) for p, _, s in parts]
    n = sum(sizes)
    if len(parts) == 1 or cx.tier == "thorough":
        kinds = [cx.pick(["scalar", "vector", "Diagonal"] + ([] if diag else ["none", "matrix", "Dense"]), "noise") for _ in parts]
    else:
        kinds = cx.pick([("scalar",) * 3, ("vector", "scalar", "vector")] + ([] if diag else [("matrix", "none", "scalar"), ("scalar", "matrix", "vector")]), "noise")
    mask = cx.choose(2**n, "missing")
    missing = np.array([bool(mask >> i & 1) for i in range(n)])
    ok = ~missing
    y = np.where(missing, np.nan, Y[:n])
    # Observations, real and reference.
    pairs, Ns, specs, i = [], [], [], 0
    for (p, xr, xs), k, size in zip(parts, kinds, sizes):
        nr, N = noise(k, size, i)
        yi = y[i : i + size]
        if len(parts) > 1 and cx.labels and len(pairs) == 1:
            yi = yi[:, None]
        pairs.append((p.real(xr, nr), yi))
        Ns.append(N)
        specs.append(Tag(p, xs))
        i += size
    N = np.zeros((n, n))
    i = 0
    for Ni in Ns:
        N[i : i + len(Ni), i : i + len(Ni)] = Ni
        i += len(Ni)
    v = RM.at  # noqa: F841
    joint = object()
    m.comps[joint] = ()
    m.defs[joint] = lambda s: m.at(s.p, s.x)
    ro = RObs(joint, tuple(specs), N, y, None if method == "exact" else method)
    if diag:
        u, zx = look[0], np.array([[-1.0], [0.4], [1.7]]) if look[0].d == 1 else XA[2]
        ro.u, ro.uspec, ro.uN = u, zx, np.zeros((3, 3))
    ro = ro.without_missing()
    cls = Obs if method == "exact" else METHODS[method]
    us = (look[0].real(rx(zx)),) if diag else ()
    forms = [("Obs", lambda: cls(*us, *(pairs[0] if len(pairs) == 1 else pairs)))]
    if len(pairs) > 1:
        forms.append(("Obs(combine)", lambda: cls(*us, *combine(*pairs))))
    if not diag:
        forms.append(("|", lambda: (pairs[0] if len(pairs) == 1 else tuple(pairs))))
    form, make = cx.pick(forms, "form")
    arg = make()
    cx.step()
    what = f"{ok.sum()} of {n} available: "
    if form != "|":
        k = int(ok.sum())
        cx.check(np.allclose(np.ravel(arg.y), y[ok]) and np.shape(arg.y) == (k, 1), f"{what}observed values are {arg.y}")
        cx.close(arg.fdd.noise, N[np.ix_(ok, ok)], what + "noise")
        vec = m.at(joint, tuple(specs)).take(ok)
        if k:
            cx.close(arg.fdd.p.kernel(arg.fdd.x) if len(w.ms) == 1 else m.real.kernels[arg.fdd.p](arg.fdd.x), m.cov(vec, vec), what + "covariance of what remains")
    post = w.posterior(m, ro, m.real | arg)
    w.compare(post, ps=look, tol=1e-5, what=what)
    if diag:
        cx.close(m.real.logpdf(arg), post.elbo() if k else 0.0, what + "evidence bound")
        cx.close(arg.elbo(m.real), post.elbo() if k else 0.0, what + "evidence bound")
        return
    # Evidence.
    want = m.logpdf(joint, tuple(specs), N, y, ok)
    if form == "Obs":
        cx.close(m.real.logpdf(arg), want, what + "evidence of observations")
    if form == "|":
        cx.close(m.real.logpdf(*pairs), want, what + "evidence of pairs")
        if len(pairs) == 1:
            fdd, yi = pairs[0]
            cx.close(m.real.logpdf(fdd, yi), want, what + "evidence")
            cx.close(m.real.logpdf(fdd, yi[:, None]), want, what + "evidence of a column")
            cx.close(m.real(fdd).logpdf(yi), want, what + "log-density")
            if len(w.ms) == 2:  # Otherwise the process reports a prior measure.
                cx.close(fdd.logpdf(yi), want, what + "log-density of the distribution")
    else:
        cx.close(m.real.logpdf(*combine(*pairs)) if len(pairs) > 1 else m.real(pairs[0][0]).logpdf(pairs[0][1][:, None]), want, what + "evidence of a combination")
    # Leaving the observations out by hand.
    if form == "Obs" and len(parts) == 1 and isinstance(parts[0][1], np.ndarray) and shape != "multi plain" and ok.any():
        p, xr, _ = parts[0]
        real = m.real | (p.real(xr[ok], N[np.ix_(ok, ok)]), y[ok])
        for q in look:
            cx.close(real.means[q.real](rx(XA[q.d])), post.m(q, XA[q.d])[:, None], "posterior mean with observations left out")
            cx.close(real.kernels[q.real](rx(XB[q.d])), post.k(q, XB[q.d], q, XB[q.d]), "posterior variance with observations left out")


def unsupported(cx):
    """Selections that the library cannot do must not be done wrongly."""
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq"), w.base(m, "exp")
    c = cross(f.real, g.real)
    kind, p = cx.pick([("scaled", lambda: 2 * c), ("posterior", lambda: c | (f.real(0.3, 0.1), np.array([1.0]))), ("shifted", lambda: c.shift(0.1)), ("sum", lambda: c + c)], "process")
    mask = cx.choose(14, "missing") + 1
    y = np.where([bool(mask >> i & 1) for i in range(4)], np.nan, Y)
    p = p()
    cx.step()
    X = OBS[1][:2, 0]
    try:
        o = Obs(p(X, 0.1), y)
    except Exception:
        cx.check(True, "")
        return
    # Should it ever be supported, then it has to be right.
    ok = ~np.isnan(y)
    full = p(X, 0.1)
    cx.close(o.fdd.var, np.asarray(B_dense(full.var))[np.ix_(ok, ok)], "selected covariance")
    cx.close(o.fdd.mean, np.asarray(B_dense(full.mean))[ok], "selected mean")


def B_dense(a):
    import lab as B

    return B.dense(a)


def harnesses(tier):
    return {"missing": program, "unsupported": unsupported}
