"""C02: conditioning is exact Gaussian conditioning, in every history."""
import numpy as np

from stheno import Obs, Observations

from .. import structures
from ..ref import RObs, Tag
from ..world import OBS, XA, XB, XC, Y, P, World, binary, rx, unary

BOUNDS = {
    "quick": "histories: all sequences of 3 steps (condition any measure on any of its processes, build in any measure, copy into a posterior) "
             "from two base processes, at most 3 measures, and all sequences of 2 steps after each of 5 preludes; spellings: all spellings x noise representations x kinds of observations; "
             "chains: all conditionings of all linear operations and vice versa; "
             "structures: 25 kernels (constant, low rank, diagonal, zero, products and sums of these) x 14 operations x 5 kinds of noise, conditioned twice; "
             "reuse: all sequences of 3 uses of one observations object (one, joint, multi-output, with missing values) with any of the measures, looked at at once or later",
    "thorough": "histories of 5 steps",
}
ASSUMPTIONS = ["observation noise at least 0.1 or well-separated inputs, so that the jitter of Cholesky factorisations is invisible at 1e-6"]


# -- histories -----------------------------------------------------------------------------------------------
def actions(w, max_ms=3):
    acts = []
    for i, m in enumerate(w.ms):
        ps = [p for p in w.ps if m.has(p)]
        if len(w.ms) < max_ms:
            for p in ps:
                acts.append((f"m{i}|{p}", "cond", m, (p,)))
        if i == len(w.ms) - 1:
            acts.append((f"new in m{i}", "new", m, ()))
        if m.parent:
            for p in ps:
                if p.home is not m:
                    acts.append((f"m{i}({p})", "copy", m, (p,)))
    by_home = {}
    for p in w.ps:
        by_home.setdefault(id(p.home), []).append(p)
    for ps in by_home.values():
        for i, p in enumerate(ps):
            acts.append((f"-2*{p}.shift", "lin1", None, (p,)))
            for q in ps[i + 1 :]:
                acts.append((f"{p}+{q}", "lin2", None, (p, q)))
    return acts


SPLIT = [(slice(0, 2), 0.2), (slice(2, 4), np.array([0.3, 0.15])), (slice(1, 3), 0.25)]


PRELUDES = [
    ("eq+lin", "m0|(eq+lin)"),
    ("m0|eq", "m1(lin)", "m1|lin"),
    ("m0|lin", "new in m1", "m1(eq)", "m1(eq)+exp1"),
    ("m0|eq", "m0|lin", "eq+lin"),
    ("m0|eq", "m1|lin", "m2(eq)"),
]


def history(depth, preludes=((),)):
    def prog(cx):
        w = World(cx)
        m = w.measure()
        w.base(m, "eq")
        w.base(m, "lin")
        prelude = cx.pick(preludes, "prelude", show=False) if len(preludes) > 1 else ()
        for i in range(len(prelude) + depth):
            acts = actions(w, 4 if prelude else 3)
            if i < len(prelude):
                found = [a for a in acts if a[0] == prelude[i].replace("m1(eq)+exp1", "exp1+post1(eq)")]
                assert found, (prelude[i], [a[0] for a in acts])
                label, kind, m, args = found[0]
            else:
                label, kind, m, args = cx.pick(acts, "step")
            nm, new = len(w.ms), None
            if kind == "cond":
                sl, noise = SPLIT[(nm - 1) % 3]
                w.observe(m, args[0], OBS[1][sl], noise, Y[sl])
            elif kind == "new":
                new = w.base(m, "exp", label=f"exp{i}")
            elif kind == "copy":
                new = w.copy(m, args[0])
            elif kind == "lin1":
                new = w.lin((-2 * args[0].real).shift(0.4), f"-2{args[0]}>", args, lambda X, a: a(X - 0.4).scale(-2))
            else:
                new = w.lin(args[0].real + args[1].real, f"({args[0]}+{args[1]})", args, lambda X, a, b: a(X) + b(X))
            if cx.fresh:
                if kind == "cond":
                    w.compare(w.ms[-1], elwise=i < 2)
                else:
                    for k, m in enumerate(w.ms):
                        if m.has(new):
                            w.compare(m, new=[new], elwise=i < 2, what=f"under m{k}: ")
    return prog


# -- every spelling -------------------------------------------------------------------------------------------
NOISES = [
    ("scalar", lambda n: 0.2, lambda n: 0.2 * np.eye(n)),
    ("vector", lambda n: np.linspace(0.1, 0.4, n), lambda n: np.diag(np.linspace(0.1, 0.4, n))),
    ("matrix", lambda n: 0.3 * np.eye(n) + 0.05, lambda n: 0.3 * np.eye(n) + 0.05),
    ("none", lambda n: None, lambda n: np.zeros((n, n))),
]


def spellings(cx):
    w = World(cx)
    m = w.measure()
    f = w.base(m, "eq")
    g = w.base(m, "exp")
    h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
    nl, nr, nref = cx.pick(NOISES, "noise")
    what = cx.pick(["one", "two", "three", "same twice"], "observations")
    # (process, inputs, values)
    obs = {
        "one": [(h, slice(0, 3))],
        "two": [(f, slice(0, 2)), (h, slice(2, 4))],
        "three": [(g, slice(0, 1)), (f, slice(1, 3)), (h, slice(3, 4))],
        "same twice": [(f, slice(0, 2)), (f, slice(2, 4))],
    }[what]
    pairs = []
    for k, (p, sl) in enumerate(obs):
        X, y = OBS[1][sl], Y[sl]
        form = cx.pick(["vector", "column"], "y") if len(obs) == 1 else ["vector", "column"][k % 2]
        pairs.append((p.real(rx(X), nr(len(X))), y if form == "vector" else y[:, None]))
    one = len(pairs) == 1
    spell = cx.pick(
        [
            ("m | pairs", lambda: m.real | (tuple(pairs) if not one else pairs[0])),
            ("m.condition(pairs)", lambda: m.real.condition(*pairs)),
            ("m | Obs", lambda: m.real | Observations(*pairs)),
            ("m.condition(Obs)", lambda: m.real.condition(Obs(*pairs))),
            ("m | ((pairs),)", lambda: m.real | tuple(pairs)),
            ("f | pairs", lambda: f.real | (tuple(pairs) if not one else pairs[0])),
            ("f.condition(pairs)", lambda: f.real.condition(*pairs)),
            ("f.condition(Obs)", lambda: f.real.condition(Obs(*pairs))),
            ("h | Obs", lambda: h.real | Obs(*pairs)),
        ]
        + (
            [
                ("m.condition(fdd, y)", lambda: m.real.condition(*pairs[0])),
                ("m | Obs(fdd, y)", lambda: m.real | Obs(*pairs[0])),
                ("f.condition(fdd, y)", lambda: f.real.condition(*pairs[0])),
            ]
            if one
            else [("m.condition((pairs))", lambda: m.real.condition(tuple(pairs)))]
        ),
        "spelling",
    )
    r = spell[1]()
    procs = [p for p, _ in obs]
    joint = P(None, "joint")
    m.add_cross(joint, procs)
    spec = tuple(Tag(p, OBS[1][sl]) for p, sl in obs)
    n = [sl.stop - sl.start for _, sl in obs]
    N = np.zeros((sum(n), sum(n)))
    i = 0
    for k in n:
        N[i : i + k, i : i + k] = nref(k)
        i += k
    robs = RObs(joint, spec, N, np.concatenate([Y[sl] for _, sl in obs]))
    if spell[0][0] in "fh":
        q = f if spell[0][0] == "f" else h
        cx.check(type(r).__name__ == "GP", f"{spell[0]} gives a {type(r).__name__}")
        post = w.posterior(m, robs, r.measure)
        c = P(r, "p|obs", 1, 1, post)
        post.defs[c] = lambda s: post.at(q, s)
        w.ps.append(c)
        cx.check(r.measure is not m.real, "posterior process lives in the prior")
    else:
        post = w.posterior(m, robs, r)
    w.compare(post, [p for p in w.ps if p is not joint])
    # Views of finite-dimensional distributions under the posterior.
    X = XC[1]
    for p in (f, h):
        fdd = post.real(p.real(rx(X), 0.3))
        K, mu = post.k(p, X, p, X), post.m(p, X)
        a = cx.pick(["mean_var", "marginals", "mean then var"], "view") if p is h else "mean_var"
        if a == "mean_var":
            mean, var = fdd.mean_var
            cx.close(mean, mu[:, None], "posterior mean (mean_var)")
            cx.close(var, K + 0.3 * np.eye(len(X)), "posterior variance (mean_var)")
        elif a == "marginals":
            mean, var = fdd.marginals()
            cx.close(mean, mu, "posterior marginal mean")
            cx.close(var, np.diag(K) + 0.3, "posterior marginal variance")
        else:
            cx.close(fdd.mean, mu[:, None], "posterior mean")
            cx.close(fdd.var, K + 0.3 * np.eye(len(X)), "posterior variance")
        fdd = post.real(p.real)(rx(X))
        cx.close(fdd.mean_var[0], mu[:, None], "posterior mean (copied process)")
        cx.close(fdd.mean_var[1], K, "posterior variance (copied process)")


# -- conditioning on and of every linear operation --------------------------------------------------------------
def chain(d):
    def prog(cx):
        w = World(cx)
        m = w.measure()
        f = w.base(m, "eq", d)
        g = w.base(m, "lin", d)
        when = cx.pick(["before", "after"], "build")
        ops = [o for o in unary(d, True)] + [o + (None,) for o in binary(True)]
        o = cx.pick(ops, "op")
        import inspect

        args = (f,) if len(inspect.signature(o[1]).parameters) == 1 else (f, g)
        build = lambda: w.lin(o[1](*[a.real for a in args]), o[0], args, o[2], d=o[3])
        if when == "before":
            h = build()
            q = cx.pick([h, f], "observed")
        else:
            q = cx.pick([f, g], "observed")
        X = OBS[q.d]
        post = w.observe(m, q, X[:3], np.array([0.2, 0.4, 0.3]), Y[:3])
        if when == "after":
            h = build()
        else:
            cx.check(post.real is not m.real, "conditioning returned the prior")
        w.compare(post, elwise=False)
        w.compare(m, new=[h], elwise=False, what="prior: ")
    return prog


# -- many observations, extreme noise ----------------------------------------------------------------------------
def sizes(cx):
    w = World(cx)
    m = w.measure()
    f = w.base(m, "eq")
    g = w.base(m, "exp")
    h = w.lin(f.real - 0.5 * g.real, "h", (f, g), lambda X, a, b: a(X) + b(X).scale(-0.5))
    n = cx.pick([0, 1, 2, 7, 30], "n")
    noise = cx.pick([0.01, 1.0, 1e4], "noise")
    X = np.linspace(-4, 4, n)[:, None] if n != 1 else np.array([[0.3]])
    y = 3 * np.cos(np.arange(n) * 1.3)
    p = cx.pick([f, h], "observed")
    post = w.observe(m, p, X, noise, y)
    w.compare(post)
    n2 = cx.pick([1, 3], "n2")
    X2 = np.linspace(-3, 2.5, n2)[:, None] + 0.05
    post2 = w.observe(post, g, X2, 0.3, y[:n2] if n >= n2 else np.ones(n2))
    w.compare(post2)
    # New inputs of several sizes at once.
    Z = np.linspace(-5, 5, cx.pick([1, 12], "test"))[:, None]
    w.same_mean(post2, h, Z)
    w.same_cov(post2, h, f, Z, XA[1])
    w.same_elwise(post2, h, f, Z, Z + 0.2)


# -- one observations object for several measures ------------------------------------------------------------------
def reuse(depth):
    def prog(cx):
        w = World(cx)
        m = w.measure()
        f = w.base(m, "eq")
        g = w.base(m, "lin")
        h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
        c = w.cross(f, h)
        A, B_ = OBS[1][:2], OBS[1][2:]
        kind = cx.pick(["one", "joint", "multi-output", "missing"], "observations")
        if kind == "one":
            o, robs = Obs(h.real(rx(A), 0.2), Y[:2]), RObs(h, A, 0.2 * np.eye(2), Y[:2])
        elif kind == "missing":
            o, robs = Obs(h.real(rx(OBS[1]), 0.2), np.where(np.arange(4) == 1, np.nan, Y)), RObs(h, OBS[1][[0, 2, 3]], 0.2 * np.eye(3), Y[[0, 2, 3]])
        elif kind == "joint":
            o = Obs((f.real(rx(A), 0.3), Y[:2]), (h.real(rx(B_), 0.2), Y[2:]))
            robs = RObs(c, (Tag(f, A), Tag(h, B_)), np.diag([0.3, 0.3, 0.2, 0.2]), Y)
        else:
            o, robs = Obs(c.real(rx(A), 0.2), Y), RObs(c, A, 0.2 * np.eye(4), Y)
        other = w.observe(m, g, OBS[1][1:3] + 0.2, 0.4, Y[1:3])
        for i in range(depth):
            m0 = cx.pick([x for x in w.ms], "measure", show=False)
            cx.labels[-1] = f"use={w.ms.index(m0)}"
            when = cx.pick(["look now", "look later"], "when") if i < depth - 1 else "look now"
            post = w.posterior(m0, robs, m0.real | o)
            if when == "look now":
                v, X = post.at(h, XA[1]), rx(XA[1])
                cx.close(post.real.means[h.real](X), post.mean(v)[:, None], "posterior mean")
                cx.close(post.real.kernels[h.real](X), post.cov(v, v), "posterior covariance")
        for post in w.ms[2:]:
            for p in (f, g):
                w.same_mean(post, p)
                w.same_cov(post, p, h)
        cx.close(m.real.logpdf(o), m.logpdf(robs.p, robs.spec, robs.N, robs.y), "evidence under the prior")
        cx.close(other.real.logpdf(o), other.logpdf(robs.p, robs.spec, robs.N, robs.y), "evidence under a posterior")
        cx.state(cx.labels)

    return prog


def harnesses(tier):
    deep = tier == "thorough"
    return {
        "history": history(5 if deep else 3),
        "history-from-preludes": history(3 if deep else 2, PRELUDES),
        "spellings": spellings, "chain-1d": chain(1), "chain-2d": chain(2), "sizes": sizes,
        "structures": structures.structured(list(structures.KERNELS), ["function"] + (["none", "number"] if deep else []), ["exact"], deep=deep),
        "reuse": reuse(4 if deep else 3),
    }
