"""C14: samples have exactly the distribution's mean and covariance."""
import lab as B
import numpy as np
from matrix import Constant, Dense, Diagonal, Kronecker, LowRank, Zero
from stheno import GP, Measure, Normal

from ..ref import Tag, Vec
from ..world import OBS, Y, World, rx
from .c10 import D, K, KA, KB, L, M
from .c13 import A, B_, C

BOUNDS = {
    "quick": "all basis vectors and all pairs of basis vectors of the standard-normal draws (so: the whole affine map) of samples of 12 structures of distributions and of "
             "all joint samples of up to 2 of 9 distributions, and a third one of 2, (multi-output plain, tagged and nested; noisy) under a prior and a posterior, 1 to 3 samples (alternating for pairs), with and without noise; "
             "streams: all interleavings of length 4 of sampling from two explicit states and the global one in seven ways",
    "thorough": "joint samples of up to 4, interleavings of length 5",
}


class Script(np.random.RandomState):
    """A random state whose draws are given."""

    def __init__(self, z=None):
        super().__init__(0)
        self.z, self.used = z, 0

    def randn(self, *shape):
        n = int(np.prod(shape)) if shape else 1
        i = self.used
        self.used += n
        out = np.zeros(n)
        if self.z is not None:
            out[:] = self.z[i : i + n]
        return out.reshape(shape)

    def standard_normal(self, size=None):
        return self.randn(*(() if size is None else np.atleast_1d(size))) if size is not None else float(self.randn(1)[0])

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(np.broadcast(loc, scale).shape if size is None else size)

    def _no(self, *a, **k):
        raise AssertionError("draws that are not standard normal")

    rand = random_sample = uniform = randint = random = choice = permutation = _no


def affine(cx, draw, mean, var, num, what, pairs=True, tol=1e-5):
    """`draw(state)` gives an array (n, num): it has to be affine in the draws with the right offset and linear part."""
    n = len(mean)
    s0 = Script()
    base = draw(s0)
    T = s0.used
    cx.step()
    cx.close(base, np.tile(mean[:, None], (1, num)), f"{what}: offset", tol)
    J = np.zeros((n * num, T))
    for j in range(T):
        z = np.zeros(T)
        z[j] = 1
        J[:, j] = (draw(Script(z)) - base).T.ravel()  # Column by column.
        cx.step()
    cx.close(J @ J.T, np.kron(np.eye(num), var), f"{what}: covariance of the samples", tol)
    cx.state(mean, var, num)
    if pairs:
        for i in range(T):
            for j in range(i, T):
                z = np.zeros(T)
                z[i] += 1.5
                z[j] += -2.0
                w = base.T.ravel() + J @ z
                cx.close(draw(Script(z)).T.ravel(), w, f"{what}: not affine", tol)
                cx.step()
    # All draws large at the same time: nothing is clipped.
    z = np.where(np.arange(T) % 2, 1e3, -2e3)
    cx.close(draw(Script(z)).T.ravel(), base.T.ravel() + J @ z, f"{what}: not affine", tol)


def normals():
    z = np.zeros(4)
    O = np.ones((4, 4))
    return {
        "dense": (lambda: Normal(M, K), M[:, 0], K), "Dense": (lambda: Normal(Dense(M), Dense(K)), M[:, 0], K), "zero mean": (lambda: Normal(K), z, K),
        "Diagonal": (lambda: Normal(M, Diagonal(D)), M[:, 0], np.diag(D)), "zero mean diagonal": (lambda: Normal(Diagonal(D)), z, np.diag(D)),
        "Kronecker": (lambda: Normal(M, Kronecker(Dense(KA), Dense(KB))), M[:, 0], np.kron(KA, KB)),
        "low rank + diagonal": (lambda: Normal(M, Diagonal(D) + LowRank(L)), M[:, 0], np.diag(D) + L @ L.T),
        "constant + diagonal": (lambda: Normal(Constant(0.3, 4, 1), Diagonal(D) + Constant(0.7, 4, 4)), z + 0.3, np.diag(D) + 0.7 * O),
        "low rank": (lambda: Normal(M, LowRank(L)), M[:, 0], L @ L.T),
        "zero": (lambda: Normal(M, Zero(float, 4, 4)), M[:, 0], 0 * O),
        "functions": (lambda: Normal(lambda: M, lambda: K), M[:, 0], K), "function": (lambda: Normal(lambda: Diagonal(D)), z, np.diag(D)),
        "one": (lambda: Normal(np.array([[0.4]]), np.array([[2.0]])), np.array([0.4]), np.array([[2.0]])),
        "transformed": (lambda: (2 * Normal(M, K) - 1).lmatmul(K[:2]), K[:2] @ (2 * M[:, 0] - 1), 4 * K[:2] @ K @ K[:2].T),
    }


NORMALS = normals()


def single(cx):
    label = cx.pick(list(NORMALS), "distribution")
    make, m, v = NORMALS[label]
    num = cx.pick([None, 1, 2, 3], "samples")
    noise = cx.pick([None, 0.3], "noise")
    before = cx.pick(["nothing", "var", "marginals", "sample"], "before")
    d = make()
    if before == "var":
        d.var, d.mean
    elif before == "marginals":
        d.marginals()
    elif before == "sample":
        d.sample(np.random.RandomState(1), 2, noise=0.1)
    v = v + (noise or 0) * np.eye(len(m))

    def draw(state):
        kw = {} if noise is None else {"noise": noise}
        r = d.sample(state, **kw) if num is None else d.sample(state, num, **kw)
        cx.check(isinstance(r, tuple) and len(r) == 2 and r[0] is state, "sampling with a state does not return the state and the sample")
        cx.check(type(r[1]) is np.ndarray and r[1].shape == (len(m), num or 1), f"shape of the sample is {np.shape(r[1])}")
        return r[1]

    affine(cx, draw, m, v, num or 1, label, pairs=num in (None, 2))


def joint(depth):
    def prog(cx):
        w = World(cx)
        m = w.measure()
        f, g = w.base(m, "eq"), w.base(m, "lin")
        h = w.lin(f.real + g.real, "h", (f, g), lambda X, a, b: a(X) + b(X))
        c = w.cross(h, g)
        cc = w.cross(f, c)
        place = cx.pick(["prior", "posterior", "copies"], "measure")
        if place != "prior":
            m = w.observe(m, h, OBS[1][1:3], 0.2, Y[:2])
            if place == "copies":
                f, g, h = w.copy(m, f), w.copy(m, g), w.copy(m, h)
                c = w.cross(h, g)
                cc = w.cross(f, c)
        items = [
            ("f(A)", f, rx(A), A, None), ("f(B, .1)", f, rx(B_), B_, 0.1), ("h(C, vector)", h, rx(C), C, np.array([0.1, 0.2, 0.3])), ("f(scalar)", f, 0.31, A[:1], 0.5),
            ("c(A)", c, rx(A), A, 0.2), ("c((g(A), h(B)))", c, (g.real(rx(A)), h.real(rx(B_))), (Tag(g, A), Tag(h, B_)), 0.4),
            ("c(g(A))", c, g.real(rx(A)), Tag(g, A), 0.4), ("cc(B)", cc, rx(B_), B_, 0.2), ("cc(c(B))", cc, c.real(rx(B_)), Tag(c, B_), 0.2),
        ]
        fdds, vs, Ns = [], [], []
        n = cx.choose(depth, "number") + 1
        for i in range(n):
            _, p, xr, xs, nr = cx.pick(items if i < 2 or depth > 3 else [items[1], items[5]], "item")
            fdds.append(p.real(xr) if nr is None else p.real(xr, nr))
            vs.append(m.at(p, xs))
            Ns.append(np.broadcast_to(0.0 if nr is None else nr, (len(vs[-1]),)))
        num = cx.pick([None, 1, 2], "samples") if n < (3 if depth > 3 else 2) else [None, 1, 2][sum(cx.choices) % 3]
        v = Vec.concat(vs)
        mu, S = m.mean(v), m.cov(v, v) + np.diag(np.concatenate(Ns))

        def draw(state):
            r = m.real.sample(state, *fdds) if num is None else m.real.sample(state, num, *fdds)
            cx.check(isinstance(r, tuple) and len(r) == n + 1 and r[0] is state, "a joint sample is not the state and one sample per distribution")
            for s, u in zip(r[1:], vs):
                cx.check(np.shape(s) == (len(u), num or 1), f"shape of a sample is {np.shape(s)}, expected {(len(u), num or 1)}")
            return np.concatenate(r[1:], 0)

        affine(cx, draw, mu, S, num or 1, "joint sample", pairs=n == 1 and num == 2, tol=2e-5)
        if n == 1 and (place != "posterior"):
            affine(cx, lambda s: fdds[0].sample(s, num or 1)[1], mu, S, num or 1, "sample of the distribution", pairs=False, tol=2e-5)
        if n == 1:
            affine(cx, lambda s: m.real(fdds[0]).sample(s, num or 1)[1], mu, S, num or 1, "sample of the mapped distribution", pairs=False, tol=2e-5)

    return prog


WAYS = ["normal", "normal2", "noisy", "fdd", "measure", "measure2", "posterior"]


def streams(depth):
    """Streams of draws: two explicit states and the global one."""

    def world():
        f = GP(1, B_k())
        g = GP(B_k(), measure=f.measure)
        post = f.measure | (f(A[:, 0], 0.1), A[:, 0])
        return f, g, post

    def B_k():
        from mlkernels import EQ

        return EQ()

    def sample(o, way, state):
        f, g, post = o
        s = () if state is None else (state,)
        n = Normal(M, K)
        if way == "normal":
            r = n.sample(*s)
        elif way == "normal2":
            r = n.sample(*s, 2)
        elif way == "noisy":
            r = n.sample(*s, noise=0.5)
        elif way == "fdd":
            r = f(A[:, 0], 0.1).sample(*s, 3)
        elif way == "measure":
            r = f.measure.sample(*s, f(A[:, 0], 0.1), g(C[:, 0]))
        elif way == "measure2":
            r = f.measure.sample(*s, 2, f(A[:, 0], 0.1), g(B_[:, 0]))
        else:
            r = post.sample(*s, f(A[:, 0], 0.1))
        if state is not None:
            return list(r[1:]), r[0]
        r = r if isinstance(r, (list, tuple)) else [r]
        return list(r), None

    def prog(cx):
        o = world()
        seeds = {"A": 11, "B": 12}
        states = {k: np.random.RandomState(s) for k, s in seeds.items()}
        twins = {k: np.random.RandomState(s) for k, s in seeds.items()}
        saved = np.random.get_state()
        try:
            B.set_random_seed(7)
            twin_global = np.random.RandomState(7)
            for i in range(depth):
                who = cx.pick(["A", "B", "global", "seed"], "stream")
                if who == "seed":
                    B.set_random_seed(9)
                    twin_global = np.random.RandomState(9)
                    cx.step()
                    continue
                way = WAYS[cx.choose(len(WAYS), "way")] if i < (3 if depth > 4 else 2) else WAYS[(i + len(who) + sum(cx.choices)) % len(WAYS)]
                cx.labels[-1] += f" {way}"
                g0 = np.random.get_state()[1:3]
                got, st = sample(o, way, None if who == "global" else states[who])
                cx.step()
                g1 = np.random.get_state()[1:3]
                same = np.array_equal(g0[0], g1[0]) and g0[1] == g1[1]
                if who == "global":
                    cx.check(not same, f"sampling ({way}) without a state does not advance the global random state")
                    want, _ = sample(o, way, twin_global)
                    want = [np.squeeze(x) for x in want] if way in ("measure", "measure2", "posterior") else want
                else:
                    cx.check(same, f"sampling ({way}) with an explicit state changes the global random state")
                    cx.check(st is states[who], "the state that is returned is not the one that was given")
                    want, _ = sample(o, way, twins[who])
                cx.check(len(got) == len(want), f"number of samples ({way}) is {len(got)}")
                for a, b in zip(got, want):
                    cx.check(np.shape(np.squeeze(a)) == np.shape(np.squeeze(b)) and np.array_equal(np.squeeze(a), np.squeeze(b)), f"sample ({way}) from {who} is not determined by the random state")
                cx.state(i, who, way)
        finally:
            np.random.set_state(saved)

    return prog


def harnesses(tier):
    deep = tier == "thorough"
    return {"single": single, "joint": joint(4 if deep else 3), "streams": streams(5 if deep else 4)}
