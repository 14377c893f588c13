"""C15: batched computation equals computing each batch element."""
import itertools

import numpy as np
from matrix import Dense, Diagonal
from stheno import Normal, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from .. import structures
from ..ref import RM, RObs, Tag, logpdf
from ..world import World, bases, binary, unary
from .c10 import sqrtm
from .c14 import Script

BOUNDS = {
    "quick": "batch shapes (2,), (1,), (2, 2) and (0-size excluded): all sequences of 2 linear operations; all forms of data, noise, exact and three approximate methods, "
             "of posteriors, evidence, marginals, repeated conditioning, batched and unbatched data mixed; joint samples over all draws; all quantities of distributions; "
             "products (also nested and of processes of posteriors) at all pairs of 7 plain, tagged and combined inputs; "
             "structures: 6 kernels (constant, zero, low rank, diagonal, sums) x 6 operations and products x prior, posterior and inducing points x noises and views",
    "thorough": "batch shape (3, 2), sequences of 3 operations, all noise combinations",
}
ASSUMPTIONS = ["missing data in batches are documented as unsupported and raise", "joint observations and joint samples have inputs of the same batch shape"]

SHAPES = [(2,), (2, 2), (1,), (3, 1, 2)]


def inputs(batch, n, d, seed):
    """Irregular inputs, different in every batch element and well separated in each."""
    k = int(np.prod(batch))
    base = np.array([0.31, -0.94, 1.57, 2.63, -2.2, 0.83])[(np.arange(n) + seed) % 6]
    X = base[None, :] * (1 + 0.13 * np.arange(k)[:, None]) + 0.21 * np.arange(k)[:, None] * (-1) ** seed + 0.05 * seed
    X = X[..., None] if d == 1 else np.stack([X, np.cos(1.3 * X + seed)], -1)
    return X.reshape(batch + (n, d))


def values(batch, n, seed=0):
    k = int(np.prod(batch))
    return np.sin(1.0 + 1.7 * np.arange(k * n) + seed).reshape(batch + (n, 1))


def elements(batch):
    return list(itertools.product(*map(range, batch)))


def stack(batch, f):
    """Batched reference from the reference for every batch element."""
    rs = [np.asarray(f(i), float) for i in elements(batch)]
    return np.stack(rs).reshape(batch + rs[0].shape)


def compare(cx, w, m, rms, batch, ps, new, d, what, elwise=True, seed=2):
    """`rms(i)` gives the reference measure of a batch element."""
    X, Z, X2 = inputs(batch, 3, d, seed), inputs(batch, 2, d, seed + 1), inputs(batch, 3, d, seed + 2)
    ref = {i: rms(i) for i in elements(batch)}
    parts = []
    for p in new:
        wm = stack(batch, lambda i: ref[i].m(p, X[i])[:, None])
        cx.close(m.means[p.real](X), wm, f"{what}mean of {p}")
        parts.append(wm)
        for q in ps:
            wk = stack(batch, lambda i: ref[i].k(p, X[i], q, Z[i]))
            parts.append(wk)
            cx.close(m.kernels[p.real, q.real](X, Z), wk, f"{what}covariance between {p} and {q}")
            if q is not p:
                cx.close(m.kernels[q.real, p.real](Z, X), np.swapaxes(wk, -1, -2), f"{what}covariance between {q} and {p}")
            if elwise and p.out == q.out:
                we = stack(batch, lambda i: np.diag(ref[i].k(p, X[i], q, X2[i]))[:, None])
                cx.close(m.kernels[p.real, q.real].elwise(X, X2), we, f"{what}element-wise covariance of {p} and {q}")
        if elwise:
            wk = stack(batch, lambda i: ref[i].k(p, X[i], p, X[i]))
            cx.close(m.kernels[p.real](X), wk, f"{what}variance of {p}")
            cx.close(m.kernels[p.real].elwise(X), stack(batch, lambda i: np.diag(wk[i])[:, None]), f"{what}element-wise variance of {p}")
            if p.real.measure is m:
                cx.close(p.real(X).var_diag, stack(batch, lambda i: np.diag(wk[i])), f"{what}diagonal of {p}")
    cx.state(parts)


def fdd(cx, dist, batch, mu, K, what, how=None):
    """All views of a batched distribution: `mu` (..., n), `K` (..., n, n)."""
    n = mu.shape[-1]
    dg = np.diagonal(K, axis1=-2, axis2=-1)
    how = cx.pick(["values", "joint", "marginals"], "view") if how is None else how
    if how == "joint":
        a, b = dist.mean_var
        cx.close(a, mu[..., None], f"{what}: joint mean")
        cx.close(b, K, f"{what}: joint variance")
    elif how == "marginals":
        a, b = dist.marginals()
        cx.close(a, mu, f"{what}: marginal means")
        cx.close(b, dg, f"{what}: marginal variances")
        a, lo, up = dist.marginal_credible_bounds()
        e = 1.96 * np.sqrt(np.maximum(dg, 0))
        if np.all(dg > 1e-3):
            cx.close(lo, mu - e, f"{what}: lower bounds")
            cx.close(up, mu + e, f"{what}: upper bounds")
    cx.close(dist.mean, mu[..., None], f"{what}: mean")
    cx.close(dist.var, K, f"{what}: variance")
    cx.close(dist.var_diag, dg, f"{what}: variance diagonal")
    if np.linalg.eigvalsh(K).min() > 1e-2:
        y = np.concatenate([values(batch, n, s) for s in range(3)], -1)
        lp = stack(batch, lambda i: np.array([logpdf(mu[i], K[i], y[i][:, j]) for j in range(3)]))
        cx.close(dist.logpdf(y), lp, f"{what}: log-densities of columns")
        cx.close(dist.logpdf(y[..., :1]), lp[..., 0], f"{what}: log-density")
    cx.check(int(dist.dim) == n, f"{what}: dimension {dist.dim}")


def operations(depth):
    def prog(cx):
        batch = cx.pick(SHAPES[:3] if cx.tier == "quick" else SHAPES, "batch", show=False)
        d = cx.choose(2, "dimension") + 1
        w = World(cx)
        m = w.measure()
        f, g = w.base(m, "eq", d), w.base(m, "lin", d)
        for i in range(depth):
            ps = w.ps if i == 0 else w.ps[-1:] + w.ps[:1]
            alts = []
            for p in ps:
                if p.d == d:
                    alts += [(f"{o[0]}[{p}]", o, (p,)) for o in unary(d, i == 0) if o[3] is None and "0d" not in o[0]]
            if len(ps) > 1:
                alts += [(f"{o[0]}", o + (None,), (ps[0], ps[1])) for o in binary(True)]
                if i == 0:
                    alts.append(("p*q", None, (ps[0], ps[1])))
                    alts.append(("p*p", None, (ps[0], ps[0])))
            label, o, args = cx.pick(alts, "op")
            if o is None:
                new = w.product(*args)
            else:
                new = w.lin(o[1](*[a.real for a in args]), label, args, o[2])
            if cx.fresh:
                compare(cx, w, m.real, lambda i: m, batch, w.ps, [new], d, "")

    return prog


METHODS = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}


def noise(kind, batch, n, o):
    v = np.array([0.2, 0.45, 0.3, 0.6, 0.25, 0.5])[o : o + n]
    vb = v * (1 + 0.1 * np.arange(int(np.prod(batch)))[:, None]).reshape(batch + (1,))
    if kind == "scalar":
        return 0.35, lambda i: 0.35 * np.eye(n)
    if kind == "vector":
        return v, lambda i: np.diag(v)
    if kind == "matrix":
        return 0.3 * np.eye(n) + 0.05, lambda i: 0.3 * np.eye(n) + 0.05
    if kind == "batched matrix":
        r = np.stack([np.diag(vb[i]) + 0.07 for i in elements(batch)]).reshape(batch + (n, n))
        return r, lambda i: r[i]
    if kind == "batched diagonal":
        return Diagonal(vb), lambda i: np.diag(vb[i])
    if kind == "none":
        return None, lambda i: np.zeros((n, n))


def conditioning(cx):
    data = cx.pick(["f", "h", "2d", "f,h", "h,h,g", "cross", "cross tagged", "unbatched first", "again"], "data")
    batch = cx.pick(SHAPES[: 3 if data == "f" else 2] if cx.tier == "quick" else SHAPES, "batch", show=False)
    w = World(cx)
    m = w.measure()
    d = 1
    if data == "2d":
        d = 2
    f, g = w.base(m, "eq", d), w.base(m, "lin", d)
    h = w.lin((f.real + 2 * g.real).shift(0.2), "h", (f, g), lambda X, a, b: a(X - 0.2) + b(X - 0.2).scale(2))
    c = w.cross(h, g)
    method = cx.pick(["exact", "vfe", "fitc", "dtc"], "method")
    kinds = ["scalar", "vector", "batched diagonal"] + (["none", "matrix", "batched matrix"] if method == "exact" else [])
    x1, x2, x3 = inputs(batch, 3, d, 0), inputs(batch, 2, d, 3), inputs(batch, 1, d, 5)
    T = Tag
    spec = {
        "f": [(f, x1, lambda i: x1[i])], "h": [(h, x1, lambda i: x1[i])], "2d": [(h, x1, lambda i: x1[i])], "f,h": [(f, x1, lambda i: x1[i]), (h, x2, lambda i: x2[i])],
        "h,h,g": [(h, x2, lambda i: x2[i]), (h, x3, lambda i: x3[i]), (g, x1, lambda i: x1[i])], "cross": [(c, x2, lambda i: x2[i])],
        "cross tagged": [(c, (g.real(x1), h.real(x2)), lambda i: (T(g, x1[i]), T(h, x2[i])))], "unbatched first": [(h, x1, lambda i: x1[i])], "again": [(h, x1, lambda i: x1[i])],
    }[data]
    # The measures of the batch elements.
    par = {i: m for i in elements(batch)}
    real = m.real
    if data == "unbatched first":
        # Conditioned on data without batch dimensions.
        par0 = w.observe(m, g, np.array([[0.9], [-2.5]]), 0.3, np.array([0.4, -1.0]))
        par, real = {i: par0 for i in elements(batch)}, par0.real
    elif data == "again":
        xa = inputs(batch, 2, d, 4)
        ya = values(batch, 2, 9)
        real = m.real | (g.real(xa, 0.3), ya)
        par = {i: RM(m, RObs(g, xa[i], 0.3 * np.eye(2), ya[i])) for i in elements(batch)}
    if len(spec) == 1 or cx.tier == "thorough":
        ks = [cx.pick(kinds, "noise") for _ in spec]
    else:
        ks = cx.pick([("scalar",) * 3, ("vector", "batched diagonal", "scalar"), ("batched diagonal", "scalar", "vector")] + ([("batched matrix", "scalar", "none"), ("matrix", "batched matrix", "vector")] if method == "exact" else []), "noises")
    pairs, Ns, sizes, ys, o = [], [], [], [], 0
    e0 = elements(batch)[0]
    for (p, xr, xs), k in zip(spec, ks):
        n = len(m.at(p, xs(e0)))
        nr, N = noise(k, batch, n, o)
        y = values(batch, n, o)
        pairs.append((p.real(xr, nr), y))
        Ns.append(N)
        sizes.append(n)
        ys.append(y)
        o += n
    cx.step()
    j = object()
    n = sum(sizes)
    for i in elements(batch):
        par[i].defs[j] = (lambda q: lambda s: q.at(s.p, s.x))(par[i])

    def full(i):
        N = np.zeros((n, n))
        o = 0
        for Ni, k in zip(Ns, sizes):
            N[o : o + k, o : o + k] = Ni(i)
            o += k
        return N

    sp = lambda i: tuple(Tag(p, xs(i)) for p, _, xs in spec)
    y = np.concatenate(ys, -2)
    z = inputs(batch, 2, d, 1)
    if method == "exact":
        ro = lambda i: RObs(j, sp(i), full(i), y[i])
        arg = pairs[0] if len(pairs) == 1 else tuple(pairs)
        ev = stack(batch, lambda i: par[i].logpdf(j, sp(i), full(i), y[i]))
        cx.close(real.logpdf(*pairs), ev, "evidence")
        if len(pairs) == 1:
            cx.close(real(pairs[0][0]).logpdf(y), ev, "log-density")
            fdd(cx, real(pairs[0][0]), batch, stack(batch, lambda i: par[i].m(j, sp(i))), stack(batch, lambda i: par[i].k(j, sp(i), j, sp(i)) + full(i)), "data")
    else:
        us = (f.real(z), g.real(inputs(batch, 2, d, 2)))
        many = cx.choose(2, "inducing") if cx.tier == "thorough" else len(spec) > 1
        if many:
            u, us_ref = j, lambda i: (Tag(f, z[i]), Tag(g, inputs(batch, 2, d, 2)[i]))
        else:
            us, u, us_ref = us[0], f, lambda i: z[i]
        ro = lambda i: RObs(j, sp(i), full(i), y[i], method, u, us_ref(i), np.zeros((4 if many else 2,) * 2))
        arg = METHODS[method](us, *(pairs[0] if len(pairs) == 1 else pairs))
        cx.step()
    post = {i: RM(par[i], ro(i)) for i in elements(batch)}
    if method != "exact":
        cx.close(arg.elbo(real), stack(batch, lambda i: post[i].elbo()), "evidence bound")
    rp = real | arg
    cx.step()
    look = [f, h]
    compare(cx, w, rp, lambda i: post[i], batch, look, look, d, "posterior ")
    compare(cx, w, rp, lambda i: post[i], batch, [f], [c], d, "posterior ", elwise=False)
    # A distribution of the posterior.
    X = inputs(batch, 3, d, 4)
    q = rp(h.real)
    fdd(cx, q(X, 0.2), batch, stack(batch, lambda i: post[i].m(h, X[i])), stack(batch, lambda i: post[i].k(h, X[i], h, X[i]) + 0.2 * np.eye(3)), "posterior")
    # At inputs without batch dimensions.
    Xu = inputs((1,), 3, d, 4)[0]
    cx.close(rp.means[h.real](Xu), stack(batch, lambda i: post[i].m(h, Xu)[:, None]), "posterior mean at unbatched inputs")
    cx.close(rp.kernels[h.real](Xu), stack(batch, lambda i: post[i].k(h, Xu, h, Xu)), "posterior covariance at unbatched inputs")


def normals(cx):
    batch = cx.pick(SHAPES, "batch", show=False)
    k = int(np.prod(batch))
    n = cx.pick([3, 1], "n")
    G = np.sin(np.arange(k * n * n).reshape(batch + (n, n)) * 1.7 + 0.3)
    K = G @ np.swapaxes(G, -1, -2) + 0.5 * np.eye(n)
    dg = 0.5 + np.abs(G[..., 0])
    Dm = np.stack([np.diag(dg[i]) for i in elements(batch)]).reshape(batch + (n, n))
    M = values(batch, n)
    covs = {"np": (K, K), "Dense": (Dense(K), K), "Diagonal": (Diagonal(dg), Dm)}
    means = {"np": (M, M), "Dense": (Dense(M), M), "0": (0, np.zeros_like(M))}

    def dist(which):
        a, (m, rm) = cx.pick(list(means.items()), which + " mean")
        b, (v, rv) = cx.pick(list(covs.items()), which + " variance")
        d = Normal(v) if a == "0" else Normal(m, v)
        return d, rm, rv

    d, m, v = dist("first")
    op = cx.pick(["none", "2*", "-", "+c", "+col", "lmatmul", "rmatmul", "batched lmatmul", "diagonalise", "+", "kl", "w2", "sample"], "op")
    A = np.sin(np.arange(2 * n).reshape(2, n) + 0.4)
    if op == "2*":
        d, m, v = 2 * d, 2 * m, 4 * v
    elif op == "-":
        d, m = 1 - d, 1 - m
    elif op == "+c":
        d, m = d + 0.7, m + 0.7
    elif op == "+col":
        d, m = d + values(batch, n, 3), m + values(batch, n, 3)
    elif op == "lmatmul":
        d, m, v = d.lmatmul(A), A @ m, A @ v @ A.T
    elif op == "rmatmul":
        d, m, v = d.rmatmul(A.T), A @ m, A @ v @ A.T
    elif op == "batched lmatmul":
        d, m, v = d.lmatmul(G), G @ m, G @ v @ np.swapaxes(G, -1, -2)
    elif op == "diagonalise":
        d, v = d.diagonalise(), np.stack([np.diag(np.diag(v[i])) for i in elements(batch)]).reshape(v.shape)
    elif op in ("+", "kl", "w2"):
        e, m2, v2 = dist("second")
        if op == "+":
            d, m, v = d + e, m + m2, v + v2
        elif op == "kl":
            def kl(i):
                iv, r = np.linalg.inv(v2[i]), m2[i] - m[i]
                return 0.5 * (np.trace(iv @ v[i]) + (r.T @ iv @ r)[0, 0] - n + np.linalg.slogdet(v2[i])[1] - np.linalg.slogdet(v[i])[1])

            cx.close(d.kl(e), stack(batch, kl), "KL divergence")
        else:
            def w2(i):
                s = sqrtm(v[i])
                return np.sqrt(max(np.sum((m[i] - m2[i]) ** 2) + np.trace(v[i] + v2[i]) - 2 * np.trace(sqrtm(s @ v2[i] @ s)), 0))

            cx.close(d.w2(e), stack(batch, w2), "2-Wasserstein distance", tol=1e-4)
    cx.step()
    if op == "sample":
        samples(cx, lambda s: d.sample(s, 2)[1], m[..., 0], v, 2)
        samples(cx, lambda s: d.sample(s, noise=0.3)[1], m[..., 0], v + 0.3 * np.eye(n), 1)
        return
    mu = m[..., 0]
    fdd(cx, d, batch, mu, v, "distribution")
    cx.close(d.m2, v + m @ np.swapaxes(m, -1, -2), "second moment")
    if np.linalg.eigvalsh(v).min() > 1e-2:
        cx.close(d.entropy(), stack(batch, lambda i: 0.5 * (np.linalg.slogdet(v[i])[1] + mu.shape[-1] * np.log(2 * np.pi * np.e))), "entropy")


def samples(cx, draw, mu, K, num):
    """A batch of samples is affine in the draws, with independent batch elements."""
    batch, n = mu.shape[:-1], mu.shape[-1]
    s0 = Script()
    base = np.asarray(draw(s0))
    cx.check(base.shape == batch + (n, num), f"shape of samples is {base.shape}")
    cx.close(base, np.repeat(mu[..., None], num, -1), "offset of samples")
    T = s0.used
    J = np.zeros((base.size, T))
    for t in range(T):
        z = np.zeros(T)
        z[t] = 1
        J[:, t] = np.swapaxes(draw(Script(z)) - base, -1, -2).ravel()
        cx.step()
    want = np.zeros((base.size, base.size))
    b = n
    for a, i in enumerate(elements(batch)):
        for s in range(num):
            o = (a * num + s) * b
            want[o : o + b, o : o + b] = K[i]
    cx.close(J @ J.T, want, "covariance of samples", tol=2e-5)


def joint_samples(cx):
    batch = cx.pick(SHAPES[:3], "batch", show=False)
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq"), w.base(m, "lin")
    h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
    c = w.cross(h, g)
    x1, x2 = inputs(batch, 2, 1, 0), inputs(batch, 1, 1, 3)
    par, real = {i: m for i in elements(batch)}, m.real
    if cx.choose(2, "posterior"):
        xa, ya = inputs(batch, 2, 1, 4), values(batch, 2, 9)
        real = m.real | (h.real(xa, 0.3), ya)
        par = {i: RM(m, RObs(h, xa[i], 0.3 * np.eye(2), ya[i])) for i in elements(batch)}
    items = [
        ("f", lambda: f.real(x1), lambda i: Tag(f, x1[i]), 0.0), ("h noisy", lambda: h.real(x2, 0.2), lambda i: Tag(h, x2[i]), 0.2), ("cross", lambda: c.real(x2, 0.1), lambda i: Tag(c, x2[i]), 0.1),
        ("cross tagged", lambda: c.real((g.real(x1), h.real(x2))), lambda i: Tag(c, (Tag(g, x1[i]), Tag(h, x2[i]))), 0.0),
    ]
    chosen = [cx.pick(items, "item") for _ in range(cx.choose(2, "number") + 1)]
    num = cx.pick([1, 2], "samples")
    for i in elements(batch):
        par[i].defs["j"] = (lambda q: lambda s: q.at(s.p, s.x))(par[i])
    sp = lambda i: tuple(ch[2](i) for ch in chosen)
    lens = [len(par[elements(batch)[0]].at("j", ch[2](elements(batch)[0]))) for ch in chosen]
    N = np.diag(np.concatenate([np.full(l, ch[3]) for l, ch in zip(lens, chosen)]))
    mu = stack(batch, lambda i: par[i].m("j", sp(i)))
    K = stack(batch, lambda i: par[i].k("j", sp(i), "j", sp(i)) + N)
    fdds = [ch[1]() for ch in chosen]

    def draw(state):
        r = real.sample(state, num, *fdds)[1:]
        cx.check([np.shape(a) for a in r] == [batch + (l, num) for l in lens], f"shapes of joint samples are {[np.shape(a) for a in r]}")
        return np.concatenate(r, -2)

    samples(cx, draw, mu, K, num)


def structured(kernels, ops):
    """Kernels of all structures: constant, low rank, diagonal, zero."""
    def prog(cx):
        batch = cx.pick(SHAPES[:3], "batch", show=False)
        w = World(cx)
        m = w.measure()
        kernel = cx.pick(kernels, "kernel")
        p = structures.make(w, m, kernel, "function")
        q = w.base(m, "exp")
        alts = [o for o in structures.OPS if not (kernel in structures.LOW and o[0] in ("shift+p", "f*p+p"))]
        alts += [("p*q", lambda: w.product(p, q)), ("p*p", lambda: w.product(p, p)), ("cross", lambda: w.cross(p, q)), ("cross-rev", lambda: w.cross(q, p, p))]
        label, op, *view = cx.pick([o for o in alts if ops is None or o[0] in ops], "op")
        if not view:
            h = op()
        else:
            h = p if label == "p" else w.lin(op(p.real, q.real), label, (p, q), view[0])
        X, n = inputs(batch, 3, 1, 2), 3 * h.out
        m1 = lambda ms: stack(batch, lambda i: ms[i].m(h, X[i]))
        k1 = lambda ms: stack(batch, lambda i: ms[i].k(h, X[i], h, X[i]))
        kind, nk, how = cx.pick(
            [(k, a, b) for k in ("prior", "exact", "vfe") for a, b in zip(["scalar", "vector", "batched diagonal", "batched matrix"], ["joint", "marginals", "values", "marginals"])
             if (k != "vfe" or a == "scalar") and (h.out < 3 or a == "scalar") and (k != "exact" or a[0] != "v" and a[-1] != "x")], "what")
        nr, N = noise(nk, batch, n, 0)
        ms = {i: m for i in elements(batch)}
        if kind == "prior":
            compare(cx, w, m.real, lambda i: m, batch, [p, q, h], [h], 1, "")
            fdd(cx, h.real(X, nr), batch, m1(ms), k1(ms) + stack(batch, N), "distribution", how)
            K, mu = k1(ms) + 0.3 * np.eye(n), m1(ms)[..., None]
            cx.close(h.real(X, 0.3).m2, K + mu @ np.swapaxes(mu, -1, -2), "second moment")
            cx.close(h.real(X, 0.3).entropy(), 0.5 * (np.linalg.slogdet(K)[1] + n * np.log(2 * np.pi * np.e)), "entropy")
            s = h.real(X, nr).sample(np.random.RandomState(0), 2)[1]
            cx.check(np.shape(s) == batch + (n, 2), f"shape of samples is {np.shape(s)}")
            return
        x, y, z = inputs(batch, 3, 1, 0), values(batch, n), inputs(batch, 2, 1, 1)
        cx.step()
        if kind == "exact":
            arg = (h.real(x, nr), y)
            post = {i: RM(m, RObs(h, x[i], N(i), y[i])) for i in elements(batch)}
            cx.close(m.real.logpdf(*arg), stack(batch, lambda i: m.logpdf(h, x[i], N(i), y[i])), "evidence")
        else:
            arg = PseudoObs(q.real(z), h.real(x, nr), y)
            post = {i: RM(m, RObs(h, x[i], N(i), y[i], "vfe", q, z[i], np.zeros((2, 2)))) for i in elements(batch)}
            cx.close(arg.elbo(m.real), stack(batch, lambda i: post[i].elbo()), "evidence bound")
        rp = m.real | arg
        compare(cx, w, rp, lambda i: post[i], batch, [p, q], [h], 1, "posterior ", elwise=h.out == 1)
        fdd(cx, rp(h.real)(X, 0.2), batch, m1(post), k1(post) + 0.2 * np.eye(n), "posterior", how)

    return prog


def products(cx):
    """Products of processes at plain, tagged and combined batched inputs."""
    batch = cx.pick(SHAPES[:2] if cx.tier == "quick" else SHAPES, "batch", show=False)
    d = cx.choose(2, "dimension") + 1
    w = World(cx)
    m = w.measure()
    f, g = w.base(m, "eq", d), w.base(m, "lin", d)
    h = w.lin(f.real - 2 * g.real, "h", (f, g), lambda X, a, b: a(X) + b(X).scale(-2))
    kind = cx.pick(["f,h", "h,g,f", "(f,h),g", "h,h"], "product")
    inner = w.cross(f, h) if "(" in kind else None
    of = {"f,h": (f, h), "h,g,f": (h, g, f), "(f,h),g": (inner, g), "h,h": (h, h)}[kind]
    p, q, c = of[0], of[-1], w.cross(*of)
    place = cx.pick(["prior", "posterior", "in posterior"], "measure")
    real, par = m.real, {i: m for i in elements(batch)}
    if place != "prior":
        xo, yo = inputs(batch, 2, d, 4), values(batch, 2, 9)
        real = real | (h.real(xo, 0.3), yo)
        par = {i: RM(m, RObs(h, xo[i], 0.3 * np.eye(2), yo[i])) for i in elements(batch)}
    if place == "in posterior":
        # A product of processes of the posterior, which have asymmetric covariances.
        tag = {z: real(z.real) for z in (f, g, h)}
        if inner is not None:
            tag[inner] = cross(tag[f], tag[h])
        c_ = cross(*[tag[z] for z in of])
    else:
        c_, tag = c.real, {p: p.real, q: q.real}
    A, B_ = inputs(batch, 2, d, 0), inputs(batch, 1, d, 3)
    A2, B2 = inputs(batch, 2, d, 1), inputs(batch, 1, d, 4)
    n = len(m.at(c, A[elements(batch)[0]]))
    C = inputs(batch, n, d, 2)
    specs = [
        ("A", A, lambda i: A[i]), ("A2", A2, lambda i: A2[i]), ("q(C)", tag[q](C), lambda i: Tag(q, C[i])), ("(p(A), q(B))", (tag[p](A), tag[q](B_)), lambda i: (Tag(p, A[i]), Tag(q, B_[i]))),
        ("(q(A2), p(B2))", (tag[q](A2), tag[p](B2)), lambda i: (Tag(q, A2[i]), Tag(p, B2[i]))), ("(B, (q(B2),))", (B_, (tag[q](B2),)), lambda i: (B_[i], (Tag(q, B2[i]),))),
        ("p(C)", tag[p](C), lambda i: Tag(p, C[i])),
    ]
    n1, s, sr = cx.pick(specs, "x")
    k, mean = real.kernels[c_], real.means[c_]
    cx.step()
    mu = stack(batch, lambda i: par[i].m(c, sr(i)))
    K = stack(batch, lambda i: par[i].k(c, sr(i), c, sr(i)))
    if cx.fresh:
        cx.close(mean(s), mu[..., None], f"mean at {n1}")
        cx.close(k(s), K, f"variance at {n1}")
        cx.close(k.elwise(s), np.diagonal(K, axis1=-2, axis2=-1)[..., None], f"element-wise variance at {n1}")
        cx.state(mu, K)
    n2, t, tr = cx.pick(specs + [("distribution", None, None)], "y")
    if t is None:
        N = K + 0.3 * np.eye(mu.shape[-1])
        dist = c_(s, 0.3) if place != "posterior" else real(c_(s, 0.3))
        fdd(cx, dist, batch, mu, N, f"distribution at {n1}")
        return
    want = stack(batch, lambda i: par[i].k(c, sr(i), c, tr(i)))
    cx.close(k(s, t), want, f"covariance between {n1} and {n2}")
    plain = lambda z: isinstance(z, np.ndarray)
    pair = lambda z: isinstance(z, tuple) and not isinstance(z[1], tuple)
    single = lambda z: not isinstance(z, tuple)
    if want.shape[-1] == want.shape[-2] and ((single(s) and single(t)) or (pair(s) and pair(t))):
        cx.close(k.elwise(s, t), np.diagonal(want, axis1=-2, axis2=-1)[..., None], f"element-wise covariance of {n1} and {n2}")


def harnesses(tier):
    deep = tier == "thorough"
    few = ["number", "0", "Linear", "Delta", "One+Delta", "f*Delta"]
    return {"products": products, "structures": structured(list(structures.KERNELS) if deep else few, None if deep else ["p", "f*p", "f*p+q", "p*q", "cross", "shift"]), "operations": operations(3 if deep else 2), "conditioning": conditioning, "normals": normals, "joint samples": joint_samples}
