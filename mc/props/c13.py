"""C13: multi-output processes are the block assembly of their parts."""
import numpy as np
from matrix import Diagonal
from stheno import FDD, Obs, combine, cross

from .. import structures
from ..ref import Tag
from ..world import OBS, XA, XB, XC, Y, P, World, rx

BOUNDS = {
    "quick": "10 products (one to three parts, repeated, derived, nested to depth 2, of multi-dimensional inputs) in a prior, under its posterior and "
             "built in a posterior: all pairs of 13 input specifications (plain, tagged, tuples nested to depth 3) for kernels in both orders, "
             "covariances with other processes and products, means, element-wise, finite-dimensional distributions; linear "
             "operations on products; all combinations of up to 3 of 6 distributions; "
             "structures: 8 products of processes with 6 kernels (constant, zero, low rank, diagonal, sums), in a prior and conditioned, all views for 5 kinds of noise",
    "thorough": "combinations of 4, products of products in all pairs",
}

A, B_, C, D = np.array([[0.31], [-0.94]]), np.array([[1.57]]), np.array([[2.63], [-2.2], [0.83]]), np.array([[0.31]])
E = np.array([[1.23], [-0.4]])


def lift(X, d):
    return X if d == 1 else np.concatenate([X, np.cos(2 * X)], 1)


def setting(cx, kinds):
    """A measure, its processes and a product of some of them."""
    w = World(cx)
    place = cx.pick(["prior", "posterior", "in posterior"], "measure")
    kind = cx.pick(kinds, "product")
    d = 2 if kind == "f,g 2d" else 1
    m = w.measure()
    f, g = w.base(m, "eq", d), w.base(m, "lin", d)
    h = w.lin(f.real - 2 * g.real, "h", (f, g), lambda X, a, b: a(X) + b(X).scale(-2))
    if place == "in posterior":
        post = w.observe(m, h, OBS[d][:2], 0.2, Y[:2])
        f, g, h = w.copy(post, f), w.copy(post, g), w.copy(post, h)
        m = post
    parts = {
        "f,g": [f, g], "g,f": [g, f], "f": [f], "f,f": [f, f], "h,f,g": [h, f, g], "f,g 2d": [f, g], "h,g,h": [h, g, h],
    }
    if kind in parts:
        c = w.cross(*parts[kind])
        inner = None
    else:
        inner = w.cross(f, h)
        c = {"(f,h),g": lambda: w.cross(inner, g), "g,(f,h)": lambda: w.cross(g, inner), "((f,h),g),f": lambda: w.cross(w.cross(inner, g), f), "(f,h),(f,h)": lambda: w.cross(inner, inner)}[kind]()
    if place == "posterior":
        m = w.observe(m, h, OBS[d][1:3], 0.2, Y[:2])
    return w, m, f, g, h, c, inner, d


def specs(m, c, inner, d):
    """Input specifications (name, real, reference)."""
    ps = w_parts(c, m)
    p, q = ps[0], ps[-1]
    L = lambda X: lift(X, d)
    r = lambda X: rx(L(X))

    def t(o, X):
        return (o.real(r(X)), Tag(o, L(X)))

    def tup(*ss):
        return (tuple(s[0] for s in ss), tuple(s[1] for s in ss))

    plain = lambda X: (r(X), L(X))
    out = [
        ("A", plain(A)), ("column C", (L(C), L(C))), ("p(A)", t(p, A)), ("q(C)", t(q, C)), ("(q(A), p(B))", tup(t(q, A), t(p, B_))), ("(p(A), q(A))", tup(t(p, A), t(q, A))),
        ("(A, B)", tup(plain(A), plain(B_))), ("(p(B), A, q(B))", tup(t(p, B_), plain(A), t(q, B_))), ("((p(A),), (q(B), A))", tup(tup(t(p, A)), tup(t(q, B_), plain(A)))),
        ("(((q(C),), B), p(A))", tup(tup(tup(t(q, C)), plain(B_)), t(p, A))), ("(A,)", tup(plain(A))), ("(p(D), p(D))", tup(t(p, D), t(p, D))), ("q(E)", t(q, E)),
    ]
    if d == 1:
        out.append(("scalar", (0.31, np.array([[0.31]]))))
    if inner is not None and inner in ps:
        i = inner
        f, h = w_parts(i, m)
        out += [
            ("inner(A)", t(i, A)), ("inner((h(A), f(B)))", (i.real((h.real(r(A)), f.real(r(B_)))), Tag(i, (Tag(h, L(A)), Tag(f, L(B_)))))),
            ("inner((h(A), B))", (i.real((h.real(r(A)), r(B_))), Tag(i, (Tag(h, L(A)), L(B_))))),
        ]
    return out


def w_parts(c, m):
    while c not in m.comps:
        m = m.parent
    return list(m.comps[c])


ALL = ["f,g", "g,f", "f", "f,f", "h,f,g", "h,g,h", "f,g 2d", "(f,h),g", "g,(f,h)", "((f,h),g),f", "(f,h),(f,h)"]


def kernels(cx):
    w, m, f, g, h, c, inner, d = setting(cx, ALL)
    ss = specs(m, c, inner, d)
    n1, s = cx.pick(ss, "x")
    k, mean = m.real.kernels[c.real], m.real.means[c.real]
    cx.step()
    if cx.fresh:
        v = m.at(c, s[1])
        cx.close(mean(s[0]), m.mean(v)[:, None], f"mean at {n1}")
        K = m.cov(v, v)
        cx.close(k(s[0]), K, f"covariance at {n1}")
        cx.close(k.elwise(s[0]), np.diag(K)[:, None], f"element-wise covariance at {n1}")
        cx.state(m.mean(v), K)
        for p in (f, h, c):
            X = lift(C, d)
            w_ = m.cov(v, m.at(p, X))
            cx.close(m.real.kernels[c.real, p.real](s[0], rx(X)), w_, f"covariance of the product at {n1} with {p}")
            cx.close(m.real.kernels[p.real, c.real](rx(X), s[0]), w_.T, f"covariance of {p} with the product at {n1}")
        # Finite-dimensional distributions.
        if len(w.ms) == 1 or c.home is m:
            n = len(v)
            noise = np.linspace(0.1, 0.5, n)
            dist = c.real(s[0], noise)
            cx.close(dist.var_diag, np.diag(K) + noise, f"variances of the distribution at {n1}")
            cx.close(dist.mean, m.mean(v)[:, None], f"mean of the distribution at {n1}")
            cx.close(dist.var, K + np.diag(noise), f"variance of the distribution at {n1}")
            d2 = c.real(s[0], 0.3)
            a, b = d2.marginals()
            cx.close(a, m.mean(v), f"marginal means at {n1}")
            cx.close(b, np.diag(K) + 0.3, f"marginal variances at {n1}")
            mv = c.real(s[0], np.diag(noise) + 0.05).mean_var
            cx.close(mv[0], m.mean(v)[:, None], f"joint mean at {n1}")
            cx.close(mv[1], K + np.diag(noise) + 0.05, f"joint variance at {n1}")
        else:
            dist = m.real(c.real(s[0], 0.2))
            cx.close(dist.mean, m.mean(v)[:, None], f"mean of the posterior distribution at {n1}")
            cx.close(dist.var, K + 0.2 * np.eye(len(v)), f"variance of the posterior distribution at {n1}")
    n2, t = cx.pick(ss, "y")
    v, u = m.at(c, s[1]), m.at(c, t[1])
    want = m.cov(v, u)
    cx.close(k(s[0], t[0]), want, f"covariance between {n1} and {n2}")
    # Element-wise evaluation of specifications of the same form.
    form = lambda z: tuple(map(form, z)) if isinstance(z, tuple) else ("tag", form(z.x)) if isinstance(z, Tag) else len(z)
    if len(v) == len(u) and form(s[1]) == form(t[1]) and n1 != n2:
        cx.close(k.elwise(s[0], t[0]), np.diag(want)[:, None], f"element-wise covariance of {n1} and {n2}")
    elif isinstance(s[0], tuple) and isinstance(t[0], tuple) and len(s[0]) != len(t[0]):
        cx.raises(ValueError, lambda: k.elwise(s[0], t[0]), f"element-wise covariance of {n1} and {n2}")
    elif isinstance(s[0], FDD) and isinstance(t[0], np.ndarray) and len(v) == len(u):
        cx.close(k.elwise(s[0], t[0]), np.diag(want)[:, None], f"element-wise covariance of {n1} and {n2}")
        cx.close(k.elwise(t[0], s[0]), np.diag(want)[:, None], f"element-wise covariance of {n2} and {n1}")
    elif isinstance(s[0], FDD) and isinstance(t[0], np.ndarray):
        cx.raises(ValueError, lambda: k.elwise(s[0], t[0]), f"element-wise covariance of {n1} and {n2}")
        cx.raises(ValueError, lambda: k.elwise(t[0], s[0]), f"element-wise covariance of {n2} and {n1}")


def several(cx):
    """Two products of the same measure."""
    w, m, f, g, h, c, inner, d = setting(cx, ["f,g", "f,f", "(f,h),g", "h,f,g"])
    if m.obs is not None and c.home is not m:
        other, name = f, "none"
        ps = [q for q in (c, f, g, h)]
    else:
        name = cx.pick(["g,f", "h", "f,g,h", "c,f", "f,c"], "other")
        other = {"g,f": lambda: w.cross(g, f), "h": lambda: w.cross(h), "f,g,h": lambda: w.cross(f, g, h), "c,f": lambda: w.cross(c, f), "f,c": lambda: w.cross(f, c)}[name]()
        ps = [f, g, h, c]
        op = cx.pick(["none", "copy", "2*", "+"], "then")
        if op == "2*":
            other = w.lin(-2 * other.real, "derived", (other,), lambda X, a: a(X).scale(-2))
        elif op == "+":
            e = other
            other = w.lin(other.real + other.real, "derived", (e, e), lambda X, a, b: a(X) + b(X))
        elif op == "copy":
            # Condition on the product and copy it to the posterior.
            n = len(m.at(other, lift(B_, d)))
            post = w.observe(m, other, lift(B_, d), 0.3, np.resize(Y, n))
            w.compare(post, ps=[f, g, h, c, other], new=[c, other], elwise=False)
            other = w.copy(post, other)
            m, ps = post, [f, g, c]
    w.compare(m, ps=ps + [other], new=[other], elwise=False)


def operations(cx):
    """Linear operations on products at plain inputs."""
    w, m, f, g, h, c, inner, d = setting(cx, ["f,g", "h,g,h", "(f,h),g"])
    if c.home is not m:
        c = w.copy(m, c)
    for _ in range(2):
        alts = [
            ("-2*c", lambda p: -2 * p, lambda X, a: a(X).scale(-2)), ("-c", lambda p: -p, lambda X, a: a(X).scale(-1)),
            ("c/4", lambda p: p / 4, lambda X, a: a(X).scale(0.25)), ("shift", lambda p: p.shift(0.4), lambda X, a: a(X - 0.4)), ("stretch", lambda p: p.stretch(1.7), lambda X, a: a(X / 1.7)),
            ("transform", lambda p: p.transform(lambda x: x + 0.1 * x**2), lambda X, a: a(X + 0.1 * X**2)),
            ("c+c", lambda p: p + p, lambda X, a: a(X).scale(2)),
        ]
        l, op, view = cx.pick(alts, "op")
        c = w.lin(op(c.real), f"{l}[{c}]", (c,), view)
        if cx.fresh:
            w.compare(m, ps=[f, h, c], new=[c], elwise=False)
    # Sums of different products, and products of derived ones.
    e = w.cross(c, g if g.home is c.home else w.copy(c.home, g))
    w.compare(m, ps=[c, e], new=[e], elwise=False)


def histories(depth):
    """Models in which products, further processes and conditioning alternate."""

    def prog(cx):
        w = World(cx)
        m = w.measure()
        ps = [w.base(m, "eq"), w.base(m, "lin")]
        keys = iter(["exp", "eq", "lin", "exp", "eq"])
        made = {}
        for i in range(depth):
            last = ps[-1]
            alts = [("base",), ("-2*",), ("cross", last)]
            for q in (ps[-2], ps[0]) if len(ps) > 2 else (ps[0],):
                if q.home is last.home:
                    alts += [("cross", q, last), ("cross", last, q)]
                    if q.out == last.out:
                        alts.append(("+", last, q))
            if m.obs is None or last.home is m:
                alts.append(("condition",))
            if last.home is not m:
                alts.append(("copy",))
            a = cx.pick(alts, "operation", show=False)
            cx.labels[-1] = "(" + ",".join(map(str, a)) + ")"
            if a[0] == "base":
                ps.append(w.base(m, next(keys)))
            elif a[0] == "-2*":
                ps.append(w.lin(-2 * last.real, f"(-2*{last})", (last,), lambda X, a: a(X).scale(-2)))
            elif a[0] == "cross":
                ps.append(w.cross(*a[1:]))
                made[ps[-1]] = a[1:]
            elif a[0] == "+":
                ps.append(w.lin(last.real + a[2].real, f"({last}+{a[2]})", (last, a[2]), lambda X, a, b: a(X) + b(X)))
            elif a[0] == "copy":
                ps.append(w.copy(m, last))
            else:
                m = w.observe(m, last, OBS[1][:2], 0.3, np.resize(Y, 2 * last.out))
            if cx.fresh:
                w.compare(m, ps=ps, new=[ps[-1]] if a[0] != "condition" else ps)
                tagged(w, m, ps[-1], ps, made)

    return prog


def tagged(w, m, p, ps, made):
    """Covariances of `p` at plain and tagged inputs with products at tagged inputs."""
    X, Z = XA[1], XB[1]
    for c, parts in made.items():
        if not (m.has(p) and m.has(c)):
            continue
        for t in parts:
            ins = [(rx(X), X)]
            for u in made.get(p, ())[:2]:
                ins += [(u.real(rx(X)), Tag(u, X)), ((u.real(rx(X)), u.real(rx(Z))), (Tag(u, X), Tag(u, Z)))]
            for xr, xs in ins:
                for zr, zs in [(t.real(rx(Z)), Tag(t, Z)), ((t.real(rx(Z)), parts[0].real(rx(X))), (Tag(t, Z), Tag(parts[0], X)))]:
                    w.cx.close(m.real.kernels[p.real, c.real](xr, zr), m.k(p, xs, c, zs), f"covariance of {p} with {c} at tagged inputs")
                    w.cx.close(m.real.kernels[c.real, p.real](zr, xr), m.k(c, zs, p, xs), f"covariance of {c} at tagged inputs with {p}")


def combining(depth):
    def prog(cx):
        w = World(cx)
        m = w.measure()
        f, g = w.base(m, "eq"), w.base(m, "lin")
        h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
        c = w.cross(h, g)
        place = cx.pick(["prior", "posterior"], "measure")
        if place == "posterior":
            m = w.observe(m, h, OBS[1][1:3], 0.2, Y[:2])
        M = np.array([[0.5, 0.1], [0.1, 0.4]])
        items = [
            ("f(A)", f, rx(A), A, None, np.zeros((2, 2))), ("f(B, .1)", f, rx(B_), B_, 0.1, 0.1 * np.eye(1)), ("g(A, matrix)", g, A, A, M, M),
            ("h(C, vector)", h, rx(C), C, np.array([0.1, 0.2, 0.3]), np.diag([0.1, 0.2, 0.3])), ("c(B, Diagonal)", c, rx(B_), B_, Diagonal(np.array([0.3, 0.6])), np.diag([0.3, 0.6])),
            ("c((g(A), h(B)))", c, (g.real(rx(A)), h.real(rx(B_))), (Tag(g, A), Tag(h, B_)), 0.4, 0.4 * np.eye(3)), ("f(scalar)", f, 0.31, D, 0.2, 0.2 * np.eye(1)),
        ]
        fdds, Ns, vs, ys, y = [], [], [], [], []
        n = cx.choose(depth, "number") + 1
        for i in range(n):
            _, p, xr, xs, nr, N = cx.pick(items, "item")
            fdds.append(p.real(xr, nr))
            Ns.append(N)
            vs.append(m.at(p, xs))
            yi = Y[i % 4] + 0.1 * np.arange(len(N))
            y.append(yi)
            ys.append(yi if i % 2 else yi[:, None])
        cx.step()
        k = sum(map(len, vs))
        N = np.zeros((k, k))
        i = 0
        for Ni in Ns:
            N[i : i + len(Ni), i : i + len(Ni)] = Ni
            i += len(Ni)
        from ..ref import Vec, logpdf

        v = Vec.concat(vs)
        mu, K = m.mean(v), m.cov(v, v)
        r = combine(*fdds)
        cx.check(isinstance(r, FDD), "combining distributions does not give a distribution")
        cx.close(r.noise, N, "combined noise")
        dist = r if place == "prior" else m.real(r)
        cx.close(dist.mean, mu[:, None], "combined mean")
        cx.close(dist.var_diag, np.diag(K + N), "combined variances")
        cx.close(dist.var, K + N, "combined variance")
        r2, y2 = combine(*zip(fdds, ys))
        cx.close(y2, np.concatenate(y)[:, None], "combined values")
        dist = r2 if place == "prior" else m.real(r2)
        cx.close(dist.var, K + N, "combined variance of pairs")
        cx.state(mu, K)
        o = Obs(*zip(fdds, ys)) if n > 1 else Obs(fdds[0], ys[0])
        cx.close(o.y, np.concatenate(y)[:, None], "values of observations")
        cx.close(o.fdd.noise, N, "noise of observations")
        cx.close(o.K_x(m.real), K + N, "covariance of observations")
        if np.linalg.eigvalsh(K + N)[0] > 1e-2:
            cx.close(m.real.logpdf(o), logpdf(mu, K + N, np.concatenate(y)), "evidence")

    return prog


def harnesses(tier):
    deep = tier == "thorough"
    return {"kernels": kernels, "several": several, "operations": operations, "histories": histories(4 if deep else 3), "structures": structures.multi(list(structures.KERNELS) if deep else ["number", "0", "Linear", "Delta", "One+Delta", "f*Delta"], ["function"]),
            "combining": combining(4 if deep else 3)}
