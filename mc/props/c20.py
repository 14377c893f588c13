"""C20: observation noise is applied once, to the right observations only."""
import lab as B
import numpy as np
from matrix import Constant, Dense, Diagonal, LowRank, Zero
from stheno import FDD, Measure, Obs, PseudoObs, PseudoObsDTC, PseudoObsFITC, combine, cross

from ..engine import Prune
from ..ref import RM, RObs, Tag, logpdf
from ..world import OBS, Y, World, rx
from .c14 import Script, affine

BOUNDS = {
    "quick": "7 kinds of noise in all their representations (34 in total: nothing, numbers, vectors, matrices, structured matrices) x 8 processes at repeated inputs (derived, posterior, multi-output, "
             "tagged, tagged by noisy distributions, two-dimensional) x all views in all orders of the first two, 4 ways of conditioning, evidence, samples, other measures; "
             "joint observations of all pairs of representations of one of them and half of the pairs of two others, of one distribution twice, and three; inducing points with all representations on data and on inducing points",
    "thorough": "all pairs of joint observations for all processes",
}
ASSUMPTIONS = ["noise-free data are conditioned on at distinct inputs only"]

XR = np.array([[0.31], [-0.94], [0.31], [1.57]])  # The first input is repeated.


def table(n):
    """(kind, representation, noise, matrix)"""
    v = np.array([0.2, 0.45, 0.3, 0.6, 0.25])[:n]
    L = np.array([[0.4], [-0.3], [0.5], [0.2], [0.1]])[:n]
    S = np.diag(v) + L @ L.T
    I, O = np.eye(n), np.zeros((n, n))
    out = []

    def add(kind, N, **reps):
        out.extend((kind, r, a, N) for r, a in reps.items())

    add("zero", O, omitted=(), none=(None,), int=(0,), float=(0.0,), vector=(np.zeros(n),), matrix=(O,), Zero=(Zero(float, n, n),), Diagonal=(Diagonal(np.zeros(n)),), Dense=(Dense(O),))
    add("0.35", 0.35 * I, float=(0.35,), float64=(np.float64(0.35),), zerod=(np.array(0.35),), vector=(np.full(n, 0.35),), matrix=(0.35 * I,), Diagonal=(Diagonal(np.full(n, 0.35)),), Dense=(Dense(0.35 * I),))
    add("1", I, int=(1,), vector=(np.ones(n),), ints=(np.ones(n, int),), eye=(np.eye(n),))
    add("1e4", 1e4 * I, int=(10000,), vector=(np.full(n, 1e4),))
    add("diagonal", np.diag(v), vector=(v,), matrix=(np.diag(v),), Diagonal=(Diagonal(v),), Dense=(Dense(np.diag(v)),))
    add("full", S, matrix=(S,), Dense=(Dense(S),), structured=(Diagonal(v) + LowRank(L),), sum=(Diagonal(v) + Dense(L @ L.T),))
    add("constant", 0.3 + 0.2 * I, matrix=(0.3 + 0.2 * I,), structured=(Diagonal(np.full(n, 0.2)) + Constant(0.3, n, n),))
    return out


PROCESSES = ["f", "h", "posterior", "c", "c tagged", "c noisy tags", "posterior c", "f 2d"]


def scene(cx):
    w = World(cx)
    kind = cx.pick(PROCESSES, "process")
    d = 2 if kind == "f 2d" else 1
    m = w.measure()
    f, g = w.base(m, "eq", d), w.base(m, "lin", d)
    h = w.lin(f.real - 2 * g.real, "h", (f, g), lambda X, a, b: a(X) + b(X).scale(-2))
    X = XR if d == 1 else np.concatenate([XR, XR**2], 1)
    p, x, s = f, rx(X), X
    if kind == "h":
        p = h
    elif kind.startswith("posterior"):
        c = w.cross(h, f)
        m = w.observe(m, g, OBS[1][:2], 0.2, Y[:2])
        f, h, c = w.copy(m, f), w.copy(m, h), w.copy(m, c)
        g = f
        p = h
        if kind == "posterior c":
            p, x, s = c, rx(XR[1:3]), XR[1:3]
    elif kind.startswith("c"):
        p = w.cross(h, f)
        a, b = rx(XR[1:3]), rx(XR[2:])
        if kind == "c":
            x, s = a, XR[1:3]
        else:
            # Noise of tags must not be used.
            x = (f.real(a, 0.5), h.real(b, np.array([3.0, 4.0]))) if kind == "c noisy tags" else (f.real(a), h.real(b))
            s = (Tag(f, XR[1:3]), Tag(h, XR[2:]))
    return w, m, kind, p, x, s, f, h


def checks(cx, w, m, dist, mu, K, N, what):
    cx.close(dist.mean, mu[:, None], f"{what}: mean")
    cx.close(dist.var, K + N, f"{what}: variance")
    cx.close(dist.var_diag, np.diag(K + N), f"{what}: variances")
    a, b = dist.marginals()
    cx.close(a, mu, f"{what}: marginal means")
    cx.close(b, np.diag(K + N), f"{what}: marginal variances")


VIEWS = ["mean_var", "var", "var_diag", "marginals", "bounds"]


def view(cx, dist, name, mu, K, N, what):
    V = K + N
    if name == "mean_var":
        a, b = dist.mean_var
        cx.close(a, mu[:, None], f"{what}: joint mean")
        cx.close(b, V, f"{what}: joint variance")
    elif name == "var":
        cx.close(dist.var, V, f"{what}: variance")
    elif name == "var_diag":
        cx.close(dist.var_diag, np.diag(V), f"{what}: variances")
    elif name == "marginals":
        a, b = dist.marginals()
        cx.close(a, mu, f"{what}: marginal means")
        cx.close(b, np.diag(V), f"{what}: marginal variances")
    else:
        a, l, u = dist.marginal_credible_bounds()
        cx.close(l, mu - 1.96 * np.sqrt(np.diag(V)), f"{what}: lower bounds")
        cx.close(u, mu + 1.96 * np.sqrt(np.diag(V)), f"{what}: upper bounds")


def noise_free(cx, w, m, p, x, s, f, what, own=True):
    """The process and its tables are without noise."""
    v = m.at(p, s)
    K = m.cov(v, v)
    X = OBS[f.d][:3]
    cx.close(m.real.kernels[p.real](x), K, f"{what}: covariance of the process has changed")
    cx.close(m.real.kernels[p.real].elwise(x), np.diag(K)[:, None], f"{what}: element-wise covariance of the process has changed")
    cx.close(m.real.kernels[p.real, f.real](x, rx(X)), m.cov(v, m.at(f, X)), f"{what}: cross-covariance has changed")
    cx.close((p.real if own else m.real(p.real))(x).var, K, f"{what}: variance without noise has changed")


def uses(cx):
    w, m, kind, p, x, s, f, h = scene(cx)
    v = m.at(p, s)
    n = len(v)
    mu, K = m.mean(v), m.cov(v, v)
    kn, rep, noise, N = cx.pick([(f"{k}:{r}", r, a, N) for k, r, a, N in table(n)], "noise")
    make = lambda: p.real(x, *noise)
    cx.step()
    what = f"noise {kn}"
    use = cx.pick(["views", "functionals", "condition", "condition twice", "measure"], "use")
    cx.close(make().noise, N, f"{what}: noise")
    regular = np.linalg.eigvalsh(K + N)[0] > 1e-2
    y = np.cos(1.0 + np.arange(n)) - 0.3
    if use == "views":
        for a in VIEWS:
            for b in VIEWS:
                dist = make()
                view(cx, dist, a, mu, K, N, what)
                view(cx, dist, b, mu, K, N, what)
                cx.step(2)
        cx.close(FDD(p.real, x, *noise).var, K + N, f"{what}: variance of an explicit distribution")
        if regular:
            cx.close(make().logpdf(y), logpdf(mu, K + N, y), f"{what}: log-density")
            cx.close(make().entropy(), 0.5 * np.linalg.slogdet(2 * np.pi * np.e * (K + N))[1], f"{what}: entropy")
        noise_free(cx, w, m, p, x, s, f, what)
    elif use == "functionals":
        # Samples and arithmetic.
        if kn != "zero:omitted" and cx.tier == "quick" and kind in ("h", "posterior c", "f 2d") and rep not in ("vector", "matrix", "float"):
            raise Prune()
        affine(cx, lambda st: make().sample(st, 1)[1], mu, K + N, 1, f"{what}: sample", pairs=False, tol=3e-4 if not regular else 1e-4)
        if kind != "posterior" and kind != "posterior c":
            affine(cx, lambda st: m.real.sample(st, make(), h.real(rx(OBS[h.d][:1])))[1], mu, K + N, 1, f"{what}: joint sample", pairs=False, tol=3e-4 if not regular else 1e-4)
            affine(cx, lambda st: m.real.sample(st, h.real(rx(OBS[h.d][:1])), make())[1], m.m(h, OBS[h.d][:1]), m.k(h, OBS[h.d][:1], h, OBS[h.d][:1]), 1, f"{what}: joint sample of another process", pairs=False, tol=3e-4 if not regular else 1e-4)
        dist = 2 * make() - 1
        checks(cx, w, m, dist, 2 * mu - 1, 4 * K, 4 * N, f"{what}, scaled")
        A = np.cos(np.arange(2 * n)).reshape(2, n)
        cx.close(make().lmatmul(A).var, A @ (K + N) @ A.T, f"{what}: variance of a transformation")
        noise_free(cx, w, m, p, x, s, f, what)
    elif use == "measure":
        # Under the posterior, the noise is still there, once.
        X = OBS[f.d][:2]
        post = w.observe(m, f, X, 0.25, Y[:2])
        u = post.at(p, s)
        Kp, mp = post.cov(u, u), post.mean(u)
        dist = post.real(make())
        order = ["mean_var", "marginals"] if kind in ("f", "h", "c") else ["marginals", "mean_var"]
        for a in order:
            view(cx, dist, a, mp, Kp, N, f"{what}, posterior")
        checks(cx, w, post, dist, mp, Kp, N, f"{what}, posterior")
        cx.close(dist.noise, N, f"{what}: noise under the posterior")
        checks(cx, w, post, post.real(p.real)(x, *noise), mp, Kp, N, f"{what}, posterior process")
        checks(cx, w, m, m.real(make()), mu, K, N, f"{what}, mapped to its own measure")
        if np.linalg.eigvalsh(Kp + N)[0] > 1e-2:
            cx.close(post.real.logpdf(make(), y), logpdf(mp, Kp + N, y), f"{what}: log-density under the posterior")
            cx.close(post.real.logpdf((make(), y)), logpdf(mp, Kp + N, y), f"{what}: log-density of a pair under the posterior")
        noise_free(cx, w, m, p, x, s, f, what)
        noise_free(cx, w, post, p, x, s, f, f"{what}, posterior", own=False)
    else:
        if not regular:
            raise Prune()
        o = RObs(p, s, N, y)
        dist = make()
        other = make()
        other.var, other.marginals()
        spell = lambda d: [lambda: m.real | (d, y), lambda: m.real.condition(d, y), lambda: m.real.condition(Obs(d, y[:, None])), lambda: m.real | ((d, y),)]
        spells = spell(dist)[:2] + spell(other)[2:]
        if use == "condition":
            post = None
            for i, sp in enumerate(spells):
                real = sp()
                post = RM(m, o, real)
                compare(cx, w, post, p, x, s, f, h, f"{what}, spelling {i}")
                cx.step()
            cx.close(m.real.logpdf(dist, y), logpdf(mu, K + N, y), f"{what}: evidence")
            cx.close(m.real.logpdf(Obs(dist, y)), logpdf(mu, K + N, y), f"{what}: evidence of observations")
            cx.close(dist.var, K + N, f"{what}: variance after conditioning")
        else:
            # The same distribution observed twice: every time with new noise.
            y2 = y + 0.4
            if kn.startswith("zero"):
                raise Prune()
            ref = RM(RM(m, o), RObs(p, s, N, y2))
            big = np.kron(np.eye(2), N)
            both = RM(m, RObs(p, (s, s), big, np.concatenate([y, y2])))
            ref.real = (m.real | (dist, y)) | (dist, y2)
            compare(cx, w, ref, p, x, s, f, h, f"{what}, observed again")
            both.real = m.real | ((dist, y), (dist, y2))
            compare(cx, w, both, p, x, s, f, h, f"{what}, observed twice")
            lp = logpdf(np.tile(mu, 2), np.kron(np.ones((2, 2)), K) + big, np.concatenate([y, y2]))
            cx.close(m.real.logpdf((dist, y), (dist, y2)), lp, f"{what}: evidence of observing twice")
        noise_free(cx, w, m, p, x, s, f, what)
    cx.state(mu, K, N)


def compare(cx, w, post, p, x, s, f, h, what):
    u = post.at(p, s)
    cx.close(post.real.means[p.real](x), post.mean(u)[:, None], f"{what}: posterior mean")
    cx.close(post.real.kernels[p.real](x), post.cov(u, u), f"{what}: posterior covariance")
    X = OBS[h.d][:3]
    hv = post.at(h, X)
    cx.close(post.real.means[h.real](rx(X)), post.mean(hv)[:, None], f"{what}: posterior mean of another process")
    cx.close(post.real.kernels[h.real, p.real](rx(X), x), post.cov(hv, u), f"{what}: posterior cross-covariance")
    cx.close(post.real(h.real)(rx(X)).var, post.cov(hv, hv), f"{what}: posterior variance of another process")


def joint(cx):
    """Noise of joint observations belongs to the right ones."""
    w, m, kind, p, x, s, f, h = scene(cx)
    if cx.tier == "quick" and kind not in ("f", "c tagged", "posterior"):
        raise Prune()
    v = m.at(p, s)
    n = len(v)
    # With other processes than the plain one, half of the pairs of noises.
    half = cx.tier == "quick" and kind != "f"
    T1 = [t for t in table(n) if cx.tier == "thorough" or t[0] not in ("1e4", "1")]
    T2 = [t for t in table(3) if cx.tier == "thorough" or t[0] not in ("1e4", "1")]
    k1, r1, n1, N1 = T1[cx.choose(len(T1), "noise")]
    k2, r2, n2, N2 = T2[cx.choose(len(T2), "noise")]
    cx.labels[-2:] = [f"{k1}:{r1}", f"{k2}:{r2}"]
    if half and sum(cx.choices) % 2:
        raise Prune()
    Z = np.array([[0.31], [2.1], [-1.57]])
    if f.d == 2:
        Z = np.concatenate([Z, Z**2], 1)
    third = cx.choose(2, "third") if cx.tier == "thorough" else (len(r1) + len(r2)) % 2
    a, b = p.real(x, *n1), h.real(rx(Z), *n2)
    vb = m.at(h, Z)
    parts, vs, Ns = [a, b], [v, vb], [N1, N2]
    specs = [(p, s), (h, Z)]
    if third:
        parts.insert(0, f.real(rx(Z[:1]), 0.15))
        vs.insert(0, m.at(f, Z[:1]))
        Ns.insert(0, np.array([[0.15]]))
        specs.insert(0, (f, Z[:1]))
    from ..ref import Vec

    V = Vec.concat(vs)
    K, mu = m.cov(V, V), m.mean(V)
    N = np.zeros_like(K)
    i = 0
    for M in Ns:
        N[i : i + len(M), i : i + len(M)] = M
        i += len(M)
    dist = combine(*parts)
    cx.step()
    cx.close(dist.noise, N, "noise of the combination")
    checks(cx, w, m, dist, mu, K, N, "combination")
    # The parts are what they were.
    cx.close(a.var, m.cov(v, v) + N1, "variance of a part")
    cx.close(b.var, m.cov(vb, vb) + N2, "variance of a part")
    if np.linalg.eigvalsh(K + N)[0] > 1e-2:
        y = np.cos(1.0 + np.arange(len(mu))) - 0.3
        ys, i = [], 0
        for M in Ns:
            ys.append(y[i : i + len(M)])
            i += len(M)
        pairs = list(zip(parts, ys))
        cx.close(m.real.logpdf(*pairs), logpdf(mu, K + N, y), "evidence of joint observations")
        real = m.real | tuple(pairs) if third else m.real.condition(*pairs)
        # In the reference: one conditioning on the stacked views.
        from ..ref import RM as _RM

        post = _RM(m, RObs(_Stack(), specs, N, y), real)
        _Stack.attach(post, m, specs)
        for q, sq, xq in [(p, s, x), (h, Z, rx(Z))]:
            u = post.at(q, sq)
            cx.close(real.means[q.real](xq), post.mean(u)[:, None], f"posterior mean of {q}")
            cx.close(real.kernels[q.real](xq), post.cov(u, u), f"posterior covariance of {q}")
        u = post.at(h, Z)
        pv = post.at(p, s)
        cx.close(real.kernels[p.real, h.real](x, rx(Z)), post.cov(pv, u), "posterior cross-covariance")
        cx.close(real(dist).var, post.cov(Vec.concat([post.at(*t) for t in specs]), Vec.concat([post.at(*t) for t in specs])) + N, "variance of the combination under the posterior")
    cx.close(m.real.kernels[p.real, h.real](x, rx(Z)), m.cov(v, vb), "cross-covariance of the parts")
    cx.state(mu, K, N)


class _Stack:
    """A process of the reference whose view is a number of stacked views."""

    label, out = "stack", 1

    @staticmethod
    def attach(post, m, specs):
        from ..ref import Vec

        m.defs[post.obs.p] = lambda spec: Vec.concat([m.at(*t) for t in spec])


def inducing(cx):
    """Noise of inducing-point approximations: on the data and on the inducing points."""
    w, m, kind, p, x, s, f, h = scene(cx)
    v = m.at(p, s)
    n = len(v)
    which = cx.pick(["data", "inducing points", "both"], "noise on")
    Zn = np.array([[0.5], [-1.2], [1.9]])
    if f.d == 2:
        Zn = np.concatenate([Zn, Zn**2], 1)
    none = ("zero", "none", (None,), np.zeros((3, 3)))
    base = ("0.35", "float", (0.35,), 0.35 * np.eye(n))
    T1 = table(n) if which != "inducing points" else [base]
    k1, r1, n1, N1 = T1[cx.choose(len(T1), "noise")]
    cx.labels[-1] = f"{k1}:{r1}"
    T2 = [none] if which == "data" else table(3) if which == "inducing points" else [t for t in table(3) if t[:2] in (("diagonal", "vector"), ("full", "matrix"), ("0.35", "float"))]
    k2, r2, n2, N2 = T2[cx.choose(len(T2), "noise")]
    cx.labels[-1] = f"{k2}:{r2}"
    method = cx.pick(["vfe", "fitc", "dtc"], "method") if cx.tier == "thorough" else ["vfe", "fitc", "dtc"][(len(k1) + len(r1) + len(r2)) % 3]
    y = np.cos(1.0 + np.arange(n)) - 0.3
    cls = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}[method]
    u, o = f.real(rx(Zn), *n2), p.real(x, *n1)
    diag = isinstance(o.noise, Diagonal)
    obs = cls(u, o, y)
    cx.step()
    if not diag:
        # Only noise that is known to be diagonal is supported.
        cx.raises(RuntimeError, lambda: obs.elbo(m.real), f"noise {k1}:{r1}: bound")
        cx.check(r1 in ("omitted", "none", "matrix", "Zero", "Dense", "structured", "sum", "eye"), f"noise {k1}:{r1} is not diagonal, but {type(o.noise).__name__}")
        cx.state([k1, r1])
        return
    if k1 == "zero":
        cx.state([k1, r1])
        return
    ref = RM(m, RObs(p, s, N1, y, method, f, Zn, N2), m.real.condition(obs))
    cx.close(obs.elbo(m.real), ref.elbo(), "bound")
    compare(cx, w, ref, p, x, s, f, h, f"noise {k1}:{r1} and {k2}:{r2}")
    cx.close(o.var, m.cov(v, v) + N1, "variance of the observed distribution")
    cx.close(u.var, m.k(f, Zn, f, Zn) + N2, "variance at the inducing points")
    cx.close(ref.real(o).var, ref.cov(ref.at(p, s), ref.at(p, s)) + N1, "variance of the observed distribution under the posterior")
    noise_free(cx, w, m, p, x, s, f, "afterwards")
    cx.state(ref.mean(ref.at(p, s)), N1, N2)


def harnesses(tier):
    return {"uses": uses, "joint": joint, "inducing": inducing}
