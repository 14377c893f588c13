"""C03: evidence and posteriors do not depend on how data are split or ordered."""
import numpy as np
from matrix import Diagonal
from stheno import Obs, combine

from ..ref import RObs, Tag
from ..world import OBS, XA, Y, P, World, rx

BOUNDS = {
    "quick": "all ordered set partitions of three observations (different processes, sizes, noise kinds) in four models x "
             "four styles of spelling; two observations with all spellings of evidence and conditioning; two observations with all pairs of 6 kinds of noise (none, zero, number, vector, matrix, diagonal), three with all of 3; four observations in two models",
    "thorough": "three observations with all spellings, four with four styles, five with one",
}
ASSUMPTIONS = ["observation noise at least 0.15, or none at separated inputs"]


def ordered_partitions(items):
    """All sequences of non-empty blocks (ordered set partitions), with every order inside the blocks."""
    items = list(items)
    if not items:
        yield ()
        return
    # Choose the first block, as an ordered tuple.
    import itertools

    for r in range(1, len(items) + 1):
        for block in itertools.permutations(items, r):
            rest = [i for i in items if i not in block]
            for more in ordered_partitions(rest):
                yield (block,) + more


def models(cx, w, few):
    kind = cx.pick(["sum", "posterior"] if few else ["independent", "sum", "posterior", "product space"], "model")
    m = w.measure()
    f = w.base(m, "eq")
    g = w.base(m, "lin")
    if kind == "independent":
        return m, [f, g, f, g, f]
    h = w.lin(f.real + 2 * g.real, "h", (f, g), lambda X, a, b: a(X) + b(X).scale(2))
    if kind == "sum":
        return m, [f, h, g, h, f]
    if kind == "posterior":
        post = w.observe(m, h, np.array([[0.9], [-2.5]]), 0.3, np.array([0.4, -1.0]))
        u = w.base(post, "exp")
        pf, ph = w.copy(post, f), w.copy(post, h)
        v = w.lin(pf.real - u.real, "v", (pf, u), lambda X, a, b: a(X) + b(X).scale(-1))
        return post, [v, ph, u, pf, v]
    c = w.cross(f, h)
    return m, [c, g, f, h, c]


NOISES = {
    "none": lambda n: (None, np.zeros((n, n))), "number": lambda n: (0.2, 0.2 * np.eye(n)), "vector": lambda n: (np.linspace(0.15, 0.3, n), np.diag(np.linspace(0.15, 0.3, n))),
    "matrix": lambda n: (0.25 * np.eye(n) + 0.05,) * 2, "zero": lambda n: (0, np.zeros((n, n))), "Diagonal": lambda n: (Diagonal(np.linspace(0.4, 0.2, n)), np.diag(np.linspace(0.4, 0.2, n))),
}


def data(ps, noises=None):
    """Observations: (process, inputs, real noise, noise matrix, values)."""
    X = np.array([[-1.4], [0.2], [1.1], [2.05], [-0.6], [3.0], [-2.6], [1.6]])
    sizes = [2, 1, 2, 1, 1]
    out, i = [], 0
    for k, p in enumerate(ps):
        x = X[i : i + sizes[k]]
        i += sizes[k]
        n = len(x) * p.out
        if noises:
            nr, N = NOISES[noises[k]](n)
        elif k % 3 == 0:
            nr, N = 0.2, 0.2 * np.eye(n)
        elif k % 3 == 1:
            nr = np.linspace(0.15, 0.3, n)
            N = np.diag(nr)
        else:
            N = nr = 0.25 * np.eye(n) + 0.05
        y = np.cos(1.7 * np.arange(n) + k) + 0.5 * k
        out.append((p, x, nr, N, y))
    return out


def joint(m, obs):
    q = P(None, "joint")
    m.add_cross(q, [o[0] for o in obs])
    n = [len(o[4]) for o in obs]
    N = np.zeros((sum(n), sum(n)))
    i = 0
    for o, k in zip(obs, n):
        N[i : i + k, i : i + k] = o[3]
        i += k
    return RObs(q, tuple(Tag(o[0], o[1]) for o in obs), N, np.concatenate([o[4] for o in obs]))


def prog(n, spell, few=False, noises=None):
    parts = list(ordered_partitions(range(n)))

    def program(cx):
        w = World(cx)
        if noises:
            # Observations without noise need a regular covariance.
            m = w.measure()
            f, g = w.base(m, "eq"), w.base(m, "lin")
            h = w.lin(f.real + 2 * g.real, "h", (f, g), lambda X, a, b: a(X) + b(X).scale(2))
            ps = cx.pick([[f, h, f], [h, h, h], [w.cross(f, h), h, f]], "observed")
            obs = data(ps[:n], [cx.pick(noises, f"noise {i}") for i in range(n)])
        else:
            m, ps = models(cx, w, few)
            obs = data(ps[:n])
        cur, total = m, 0.0
        blocks = cx.pick(parts, "partition")
        for bi, b in enumerate(blocks):
            bo = [obs[i] for i in b]
            ro = joint(cur, bo)
            pairs = [(o[0].real(rx(o[1]), o[2]), o[4] if i % 2 else o[4][:, None]) for i, o in zip(b, bo)]
            # The evidence of this block under the current measure.
            M = cur.real
            ways = [
                ("M.logpdf(pairs)", lambda: M.logpdf(*pairs)),
                ("M.logpdf(Obs)", lambda: M.logpdf(Obs(*pairs))),
            ]
            if spell:
                ways += [
                    ("M(combine(pairs)).logpdf", lambda: (lambda q: M(q[0]).logpdf(q[1]))(combine(*pairs))),
                    ("M.logpdf(combine(pairs))", lambda: M.logpdf(*combine(*pairs))),
                ]
                if len(b) == 1:
                    ways += [("M.logpdf(fdd, y)", lambda: M.logpdf(*pairs[0]))]
                if bi == 0 and cur.parent is None and len(b) == 1:
                    ways += [("fdd.logpdf(y)", lambda: pairs[0][0].logpdf(pairs[0][1]))]
                if len(b) == 1:
                    ways += [("M(p)(x, noise).logpdf(y)", lambda: M(bo[0][0].real)(rx(bo[0][1]), bo[0][2]).logpdf(pairs[0][1]))]
            if spell == "all":
                way = cx.pick(ways, "evidence") if bi == len(blocks) - 1 else ways[(bi + len(b)) % len(ways)]
            elif spell:
                style = cx.choose(4, "style") if bi == 0 else style + 1
                way = ways[style % len(ways)]
            else:
                way = ways[bi % 2]
            want = cur.logpdf(ro.p, ro.spec, ro.N, ro.y)
            got = way[1]()
            cx.close(got, want, f"evidence of block {b} by {way[0]}")
            total += float(got)
            conds = [("M | pairs", lambda: M | tuple(pairs)), ("M | Obs", lambda: M | Obs(*pairs))]
            if spell:
                conds += [
                    ("M.condition(*pairs)", lambda: M.condition(*pairs)),
                    ("M | combine", lambda: M | combine(*pairs)),
                    ("M(p).condition", lambda: M(bo[0][0].real).condition(*pairs).measure if cur.parent is None else M.condition(*pairs)),
                ]
            if spell == "all":
                cond = cx.pick(conds, "condition") if bi == 0 else conds[bi % 2]
            else:
                cond = conds[(style + 1) % len(conds)] if spell else conds[bi % 2]
            cur = w.posterior(cur, ro, cond[1]())
        jo = joint(m, obs)
        cx.close(total, m.logpdf(jo.p, jo.spec, jo.N, jo.y), f"sum of the evidence of the parts in {blocks}")
        # The joint evidence in one go, in this order.
        allo = [obs[i] for b in blocks for i in b]
        jp = [(o[0].real(rx(o[1]), o[2]), o[4]) for o in allo]
        cx.close(m.real.logpdf(*jp), total, "joint evidence")
        # The posterior is the one given everything at once.
        batch = w.posterior(m, jo, m.real | tuple(jp))
        for p in dict.fromkeys(ps):
            X = XA[1][:2]
            cx.close(cur.real.means[p.real](rx(X)), batch.m(p, X)[:, None], f"sequential posterior mean of {p}")
            cx.close(batch.real.means[p.real](rx(X)), batch.m(p, X)[:, None], f"batch posterior mean of {p}")
            q = ps[0]
            cx.close(cur.real.kernels[p.real, q.real](rx(X), rx(XA[1])), batch.k(p, X, q, XA[1]), f"sequential posterior covariance of {p} and {q}")
        cx.state(blocks, float(total), cur.m(ps[0], XA[1]))

    return program


def harnesses(tier):
    deep = tier == "thorough"
    h = {"two": prog(2, "all"), "two noises": prog(2, "some", noises=list(NOISES)), "three noises": prog(3, None, noises=list(NOISES) if deep else ["none", "number", "matrix"])}
    if deep:
        h.update({"three": prog(3, "all"), "four": prog(4, "some"), "five": prog(5, None, True)})
    else:
        h.update({"three": prog(3, "some"), "four": prog(4, None, True)})
    return h
