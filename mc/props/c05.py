"""C05: processes belong to the right measures and measures never mix."""
import itertools

import numpy as np

import stheno
from stheno import GP, EQ, Measure, Obs, PseudoObs, combine
from mlkernels import Linear

BOUNDS = {
    "quick": "all histories of 3 steps (construct, condition, combine, copy) from a prior with two processes and a foreign process; of 2 steps with "
             "every pair of processes combined in every way after the last step (and three or four, one of which is of another measure); all orders of up to 5 measures in sets (address layouts) "
             "for processes with 1 to 4 posteriors",
    "thorough": "histories of 4 steps, all layouts of 6 measures",
}


class M:
    def __init__(self, real, label):
        self.real, self.label, self.procs = real, label, []


class Pr:
    def __init__(self, real, home, label):
        self.real, self.home, self.label = real, home, label


X = np.array([0.3, -0.8])


class World:
    """Membership only: every process has a home; posteriors contain what their prior contained at that time."""

    def __init__(self, cx):
        self.cx, self.ms, self.ps, self.n = cx, [], [], 0

    def measure(self, real, procs=()):
        m = M(real, f"m{len(self.ms)}")
        m.procs = list(procs)
        self.ms.append(m)
        return m

    def add(self, real, home, label, members=None):
        p = Pr(real, home, label)
        self.ps.append(p)
        for m in [home] if members is None else members:
            m.procs.append(p)
        self.cx.step()
        return p

    def shared(self, *ps):
        return [m for m in self.ms if all(p in m.procs for p in ps)]

    # -- combinations ----------------------------------------------------------------------------------------
    COMBOS = [
        ("+", lambda p, q: p + q),
        ("-", lambda p, q: p - q),
        ("*", lambda p, q: p * q),
        ("cross", lambda p, q: stheno.cross(p, q)),
    ]
    JOINT = [
        ("combine", lambda p, q: combine(p(X), q(X))),
        ("Obs", lambda p, q: Obs((p(X, 0.1), np.ones(2)), (q(X, 0.1), np.ones(2)))),
        ("p|...", lambda p, q: p | ((p(X, 0.1), np.ones(2)), (q(X, 0.1), np.ones(2)))),
        ("logpdf", lambda p, q: p.measure.logpdf((p(X, 0.1), np.ones(2)), (q(X, 0.1), np.ones(2)))),
        ("sample", lambda p, q: p.measure.sample(np.random.RandomState(0), 1, p(X), q(X))),
        ("inducing", lambda p, q: PseudoObs((p(X), q(X)), p(X, 0.1), np.ones(2))),
    ]

    THREE = [
        (f"{name} {''.join(order)}", lambda p, q, f=f, order=order: f(*[{"p": p, "q": q}[o] for o in order]))
        for order in [("p", "p", "q"), ("p", "q", "p"), ("p", "q", "q"), ("p", "p", "p", "q")]
        for name, f in [
            ("cross", lambda *ps: stheno.cross(*ps)),
            ("combine", lambda *ps: combine(*[p(X) for p in ps])),
            ("Obs", lambda *ps: Obs(*[(p(X, 0.1), np.ones(2)) for p in ps])),
            ("sample", lambda *ps: ps[0].measure.sample(np.random.RandomState(0), 1, *[p(X) for p in ps])),
        ]
    ]

    def snapshot(self):
        return [[id(p) for p in m.real.ps] for m in self.ms]

    def combine(self, name, f, p, q, keep=True):
        if p.home is q.home:
            r = f(p.real, q.real)
            if keep:
                self.add(r, p.home, f"({p.label}{name}{q.label})", self.shared(p, q))
        else:
            before = self.snapshot()
            self.cx.raises(AssertionError, lambda: f(p.real, q.real), f"{name} of {p.label} of {p.home.label} and {q.label} of {q.home.label}")
            # `p - q` makes `-q` before it fails, which is a new process of the measure of `q` and changes nothing else.
            ok = all(a[: len(b)] == b and (len(a) == len(b) or name == "-") for a, b in zip(self.snapshot(), before))
            self.cx.check(ok, f"failed {name} of {p.label} and {q.label} changed a measure")

    def verify(self, deep=True):
        cx = self.cx
        for p in self.ps:
            cx.check(p.real.measure is p.home.real, f"measure of {p.label} is not the one it was constructed with")
        for m in self.ms:
            for p in self.ps:
                member = p in m.procs
                if member:
                    cx.check(m.real.means[p.real] is not None and m.real.kernels[p.real] is not None, "?")
                    for q in m.procs[:2]:
                        m.real.kernels[p.real, q.real]
                        m.real.kernels[q.real, p.real]
                elif deep:
                    cx.raises(Exception, lambda: m.real.means[p.real], f"{m.label} gives a mean for {p.label}, which it does not contain")
                    cx.raises(Exception, lambda: m.real.kernels[p.real], f"{m.label} gives a kernel for {p.label}, which it does not contain")
                    cx.raises(Exception, lambda: m.real(p.real), f"{m.label} can be applied to {p.label}, which it does not contain")
                    cx.raises(Exception, lambda: m.real(p.real(X)), f"{m.label} can be applied to a distribution of {p.label}")
                    if m.procs:
                        cx.raises(Exception, lambda: m.real.kernels[p.real, m.procs[0].real], f"{m.label} gives a covariance of {p.label}")
                        cx.raises(Exception, lambda: m.real.kernels[m.procs[0].real, p.real], f"{m.label} gives a covariance of {p.label}")
                    cx.raises(Exception, lambda: m.real | (p.real(X, 0.1), np.ones(2)), f"{m.label} can be conditioned on {p.label}")
                    if m.procs:
                        q = m.procs[0]
                        cx.raises(Exception, lambda: m.real | PseudoObs(p.real(X), q.real(X, 0.1), np.ones(2)), f"{m.label} accepts inducing points of {p.label}")
        cx.state([(m.label, [p.label for p in m.procs]) for m in self.ms])


def start(cx):
    w = World(cx)
    m = w.measure(Measure())
    w.add(GP(EQ(), measure=m.real), m, "f")
    w.add(GP(1, Linear(), measure=m.real), m, "g")
    u = GP(EQ())
    mu = w.measure(u.measure)
    w.add(u, mu, "u")
    return w


def actions(w):
    acts = []
    for m in w.ms:
        if m.procs:
            p = m.procs[0]
            acts.append((f"{m.label}|", lambda m=m, p=p: w.measure(m.real | (p.real(X, 0.1), np.ones(2)), m.procs)))
        acts.append((f"new in {m.label}", lambda m=m: w.add(GP(EQ(), measure=m.real), m, f"n{len(w.ps)}")))
        for p in m.procs:
            if p.home is not m:
                acts.append((f"{m.label}({p.label})", lambda m=m, p=p: w.add(m.real(p.real), m, f"{m.label}({p.label})")))
    for p in w.ps:
        acts.append((f"2*{p.label}", lambda p=p: w.add(2 * p.real, p.home, f"2{p.label}", w.shared(p))))
        acts.append((f"{p.label}.shift", lambda p=p: w.add(p.real.shift(1), p.home, f"{p.label}>", w.shared(p))))
    for p, q in itertools.combinations(w.ps, 2):
        for name, f in World.COMBOS[::2]:
            acts.append((f"{p.label}{name}{q.label}", lambda p=p, q=q, name=name, f=f: w.combine(name, f, p, q)))
    # Condition and get a process at once.
    p = w.ps[0]

    def pipe():
        r = p.real | (p.real(X, 0.1), np.ones(2))
        post = w.measure(r.measure, p.home.procs)
        for o in w.ms[:-1]:
            w.cx.check(o.real is not r.measure, "p | obs lives in an existing measure")
        w.add(r, post, f"{post.label}({p.label})")

    acts.append(("f|obs", pipe))
    return acts


def history(depth, final):
    def prog(cx):
        w = start(cx)
        for _ in range(depth):
            cx.pick(actions(w), "step")[1]()
            if cx.fresh:
                w.verify()
        if cx.fresh and final:
            ps = list(w.ps)
            for p, q in itertools.product(ps, ps):
                for name, f in World.COMBOS[1::2]:
                    w.combine(name, f, p, q, keep=p is not q)
                for name, f in World.JOINT:
                    if p.home is not q.home or q is ps[-1]:
                        w.combine(name, f, p, q, keep=False)
                if p.home is not q.home:
                    for name, f in World.THREE:
                        w.combine(name, f, p, q, keep=False)
            w.verify(deep=False)

    return prog


# -- all layouts of the measures in sets ------------------------------------------------------------------------
def layouts(kmax):
    def prog(cx):
        k = cx.pick(list(range(1, kmax + 1)), "posteriors")
        perm = cx.pick(list(itertools.permutations(range(k + 1))), "layout")
        rank = {}
        orig = Measure.__hash__
        try:
            Measure.__hash__ = lambda self: rank.get(id(self), 100 + len(rank))
            w = World(cx)
            real = Measure()
            rank[id(real)] = perm[0]
            m = w.measure(real)
            f = w.add(GP(EQ(), measure=real), m, "f")
            g = w.add(GP(Linear(), measure=real), m, "g")
            for i in range(k):
                prior = w.ms[i] if i % 2 else m
                new = prior.real | (f.real(X, 0.1), np.ones(2))
                rank[id(new)] = perm[i + 1]
                w.measure(new, prior.procs)
            for name, op in World.COMBOS:
                w.combine(name, op, f, g)
                w.combine(name, op, g, f)
                w.combine(name, op, w.ps[-1], f)
            for name, op in World.JOINT:
                w.combine(name, op, f, g, keep=False)
            three = stheno.cross(f.real, g.real, w.ps[2].real)
            w.add(three, m, "three", w.shared(f, g, w.ps[2]))
            w.verify(deep=k < 3)
        finally:
            Measure.__hash__ = orig

    return prog


def harnesses(tier):
    deep = tier == "thorough"
    return {"history": history(4 if deep else 3, False), "history-2": history(3 if deep else 2, True), "layouts": layouts(5 if deep else 4)}
