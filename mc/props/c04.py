"""C04: no operation changes an existing distribution."""
import lab as B
import numpy as np

import stheno
from stheno import GP, EQ, Exp, Linear, Obs, PseudoObs, PseudoObsFITC, combine

from ..ref import RObs, Tag
from ..world import OBS, XA, XB, XC, Y, World, f_add, f_mul, rx

BOUNDS = {
    "quick": "all sequences of 2 operations (36 builds, conditionings, queries, samplings and namings) on a model with a prior, a "
             "posterior, derived processes, reusable observations and pre-made distributions, each followed by a full comparison in two "
             "orders of evaluation",
    "thorough": "all sequences of 3 operations",
}


class Model:
    def __init__(self, cx):
        self.cx = cx
        w = self.w = World(cx)
        m = self.m = w.measure()
        self.f = w.base(m, "eq")
        self.g = w.base(m, "lin")
        self.h = w.lin(self.f.real + 2 * self.g.real, "h", (self.f, self.g), lambda X, a, b: a(X) + b(X).scale(2))
        self.c = w.cross(self.f, self.h)
        # Arrays owned by the user: nothing may write to them.
        self.x = rx(OBS[1][:2]).copy()
        self.y = np.array([[0.7], [-0.35]])
        self.noise = np.array([0.2, 0.3])
        self.noise2 = 0.25 * np.eye(2) + 0.05
        self.xt = rx(XA[1]).copy()
        self.arrays = [self.x, self.y, self.noise, self.noise2, self.xt]
        self.copies = [a.copy() for a in self.arrays]
        self.od = self.h.real(self.x, self.noise)
        self.obs = Obs(self.od, self.y)
        self.robs = RObs(self.h, OBS[1][:2], np.diag(self.noise), self.y)
        self.pobs = PseudoObs(self.f.real(rx(XB[1])), self.od, self.y)
        self.fobs = PseudoObsFITC(self.f.real(rx(XB[1])), self.od, self.y)
        self.rpobs = RObs(self.h, OBS[1][:2], np.diag(self.noise), self.y, "vfe", self.f, XB[1], np.zeros((2, 2)))
        self.post = w.posterior(m, self.robs, m.real | self.obs)
        self.pf = w.copy(self.post, self.f)
        # Distributions made now, looked at later.
        self.fdd = self.h.real(self.xt, 0.3)
        self.pfdd = self.post.real(self.h.real(self.xt, 0.3))
        self.n0 = len(w.ps)
        self.procs = list(w.ps)
        self.ms = list(w.ms)
        self.k = 0

    # -- operations ------------------------------------------------------------------------------------------
    def ops(self):
        w, m, f, g, h, c, pf, post = self.w, self.m, self.f, self.g, self.h, self.c, self.pf, self.post
        X = self.xt
        r = np.random.RandomState
        o = [
            ("f+g", lambda: self.keep(f.real + g.real)),
            ("-f", lambda: self.keep(-f.real)),
            ("h*f_mul+g", lambda: self.keep(h.real * f_mul + f_add)),
            ("f*h", lambda: self.keep(f.real * h.real)),
            ("shift,stretch", lambda: self.keep(h.real.shift(1).stretch(2))),
            ("cross(h,g)", lambda: self.keep(stheno.cross(h.real, g.real))),
            ("new in prior", lambda: self.keep(GP(EQ(), measure=m.real))),
            ("new in post", lambda: self.keep(GP(1, Exp(), measure=post.real) + pf.real)),
            ("post(g)", lambda: self.keep(post.real(g.real))),
            ("m|g", lambda: self.keep(m.real | (g.real(self.x, self.noise2), self.y))),
            ("m|obs again", lambda: self.keep(m.real | self.obs)),
            ("post|obs", lambda: self.keep((post.real | self.obs)(f.real)(X).mean)),
            ("m|f,h", lambda: self.keep(m.real | ((f.real(self.x, 0.1), self.y), (h.real(self.x, self.noise), self.y)))),
            ("m|pseudo", lambda: self.keep((m.real | self.pobs)(h.real)(X).mean_var)),
            ("m|fitc", lambda: self.keep((m.real | self.fobs)(h.real)(X).mean_var)),
            ("post|pseudo", lambda: self.keep((post.real | self.pobs)(h.real)(X).mean_var)),
            ("elbo", lambda: self.cx.close(m.real.logpdf(self.pobs), self.elbo(m), "elbo")),
            ("elbo post", lambda: self.cx.close(self.pobs.elbo(post.real), self.elbo(post), "elbo under posterior")),
            ("m|missing", lambda: self.keep((m.real | (h.real(self.x, self.noise), np.array([np.nan, 1.0])))(f.real)(X).mean)),
            ("fdd.mean", lambda: self.cx.close(self.fdd.mean, m.m(h, XA[1])[:, None], "fdd.mean")),
            ("fdd.var", lambda: self.cx.close(self.fdd.var, m.k(h, XA[1], h, XA[1]) + 0.3 * np.eye(3), "fdd.var")),
            ("fdd.marginals", lambda: self.cx.close(self.fdd.marginals()[1], np.diag(m.k(h, XA[1], h, XA[1])) + 0.3, "fdd.marginals")),
            ("fdd+fdd", lambda: self.keep((2 * self.fdd + self.fdd - 1).mean_var)),
            ("fdd.sample", lambda: self.keep(self.fdd.sample(r(1), 2, 0.5))),
            ("fdd.logpdf(nan)", lambda: self.keep(self.fdd.logpdf(np.array([0.1, np.nan, 0.2])))),
            ("fdd.diagonalise", lambda: self.keep(self.fdd.diagonalise().mean_var)),
            ("combine", lambda: self.keep(combine(self.fdd, f.real(self.x, self.noise)).mean_var)),
            ("post.sample", lambda: self.keep(post.real.sample(r(2), 2, h.real(X, 0.1), f.real(self.x, 0.1)))),
            ("m.logpdf", lambda: self.keep(m.real.logpdf((h.real(self.x, self.noise), self.y), (g.real(self.x, self.noise2), self.y)))),
            ("post.kernels", lambda: self.keep([post.real.kernels[a.real, b.real] for a in (f, g, h) for b in (h, g, f)])),
            ("m.kernels[c]", lambda: self.keep([m.real.kernels[c.real, f.real], m.real.kernels[h.real, c.real]])),
            ("name", lambda: m.real.name(self.f.real, f"n{self.k}")),
            ("p.name", lambda: setattr(self.h.real, "name", f"m{self.k}")),
            ("take", lambda: self.keep(B.take(c.real(X, 0.2), np.array([1, 0, 1, 0, 0, 1], dtype=bool)).var)),
            ("str", lambda: self.keep([str(self.fdd), repr(h.real), repr(self.pfdd)])),
            ("with m", lambda: self.with_default()),
        ]
        return o

    def elbo(self, m):
        from ..ref import RM

        return RM(m, self.rpobs).elbo()

    def with_default(self):
        with self.m.real:
            self.keep(GP(Linear()) + self.g.real)

    def keep(self, r):
        # Results stay alive, like in a user's session.
        self.kept = getattr(self, "kept", []) + [r]

    def do(self):
        self.cx.pick(self.ops(), "op")[1]()
        self.cx.step()
        self.k += 1

    # -- everything that existed is as it was -----------------------------------------------------------------
    def verify(self, order=0, brief=False):
        cx, w = self.cx, self.w
        for i in range(len(self.arrays)):
            cx.check(np.array_equal(self.arrays[i], self.copies[i]), "an array that belongs to the user was modified")
        X, Z = XA[1], XC[1][:2]
        ms = self.ms if order == 0 else self.ms[::-1]
        ps = self.procs if order == 0 else self.procs[::-1]
        for m in ms:
            here = [p for p in ps if m.has(p)]
            what = f"under m{self.ms.index(m)}: "
            for p in here:
                if order == 1 and p.out == 1:
                    cx.close(m.real.kernels[p.real].elwise(rx(X)), np.diag(m.k(p, X, p, X))[:, None], what + f"marginal variance of {p}")
                w.same_mean(m, p, X, what=what)
            for i, p in enumerate(here):
                for j, q in enumerate(here):
                    if brief and (i + j) % 2:
                        continue
                    w.same_cov(m, p, q, X, Z, what=what)
        K = self.m.k(self.h, X, self.h, X) + 0.3 * np.eye(3)
        pm, pK = self.post.m(self.h, X), self.post.k(self.h, X, self.h, X) + 0.3 * np.eye(3)
        cx.close(self.fdd.mean, self.m.m(self.h, X)[:, None], "mean of an earlier distribution")
        cx.close(self.fdd.var, K, "variance of an earlier distribution")
        cx.close(self.pfdd.mean, pm[:, None], "mean of an earlier posterior distribution")
        cx.close(self.pfdd.var, pK, "variance of an earlier posterior distribution")
        cx.close(self.pfdd.marginals()[1], np.diag(pK), "marginal variances of an earlier posterior distribution")
        cx.close(self.od.noise, np.diag(self.noise), "noise of an observed distribution")
        cx.close(self.od.var, self.m.k(self.h, OBS[1][:2], self.h, OBS[1][:2]) + np.diag(self.noise), "variance of an observed distribution")
        cx.check(self.od.p is self.h.real and self.od.x is self.x, "process or inputs of an observed distribution")
        cx.check(self.f.real.measure is self.m.real and self.pf.real.measure is self.post.real, "measure of a process changed")
        # New posteriors from the old observations.
        again = self.m.real | self.obs
        cx.close(again(self.f.real)(rx(X)).mean, self.post.m(self.f, X)[:, None], "conditioning again on the same observations")
        pp = self.m.real | self.pobs
        from ..ref import RM

        rp = RM(self.m, self.rpobs)
        cx.close(pp(self.g.real)(rx(X)).mean, rp.m(self.g, X)[:, None], "conditioning again on the same inducing points")
        pp = self.post.real | self.pobs
        rp = RM(self.post, self.rpobs)
        cx.close(pp(self.h.real)(rx(X)).var, rp.k(self.h, X, self.h, X), "conditioning the posterior on the same inducing points")


def prog(depth, orders):
    def program(cx):
        M = Model(cx)
        for _ in range(depth):
            M.do()
            cx.state(cx.labels)
        M.verify(cx.choose(2, "order") if orders else 0, brief=not orders)

    return program


def harnesses(tier):
    return {"two": prog(2, True)} if tier == "quick" else {"two": prog(2, True), "three": prog(3, False)}
