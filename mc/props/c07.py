"""C07: names are a two-way dictionary and failed naming changes nothing."""
import numpy as np

from stheno import GP, EQ, Measure

BOUNDS = {
    "quick": "all sequences of 4 actions out of naming by a measure, naming by the process, naming at construction and conditioning, over "
             "three processes, three names and up to three measures; both directions of all dictionaries after every action",
    "thorough": "sequences of 5 actions",
}
X = np.array([0.1, 0.9])
NAMES = ["a", "b"]


class World:
    def __init__(self, cx):
        self.cx = cx
        m = Measure()
        self.ms = [m]
        self.names = [{}]  # Per measure: process index -> name.
        self.members = [[0, 1]]
        self.ps = [GP(EQ(), measure=m), GP(EQ(), measure=m)]
        self.home = [0, 0]
        u = GP(EQ(), measure=Measure())
        self.u = u

    def taken(self, k, i, n):
        return any(v == n and j != i for j, v in self.names[k].items())

    def actions(self, full):
        acts = []
        for k, m in enumerate(self.ms):
            for i in self.members[k]:
                for n in NAMES if k else NAMES + ["c"]:
                    acts.append((f"m{k}.name(p{i}, {n})", "name", k, i, n))
        for i, p in enumerate(self.ps):
            for n in NAMES:
                acts.append((f"p{i}.name = {n}", "set", None, i, n))
        if len(self.ps) < 4:
            for n in NAMES:
                acts.append((f"GP(name={n})", "new", None, None, n))
            acts.append(("p0+p1", "sum", None, None, None))
        if len(self.ms) < 3:
            acts.append(("m0|", "cond", 0, None, None))
            if len(self.ms) > 1:
                acts.append(("m1|", "cond", 1, None, None))
        return acts

    def do(self, a):
        _, kind, k, i, n = a
        cx = self.cx
        if kind == "name":
            f = lambda: self.ms[k].name(self.ps[i], n)
            if self.taken(k, i, n):
                cx.raises(RuntimeError, f, f"name {n} is taken in m{k}")
            else:
                f()
                self.names[k][i] = n
        elif kind == "set":
            f = lambda: setattr(self.ps[i], "name", n)
            where = [k for k in range(len(self.ms)) if i in self.members[k]]
            if any(self.taken(k, i, n) for k in where):
                cx.raises(RuntimeError, f, f"name {n} is taken in some measure of p{i}")
            else:
                f()
                for k in where:
                    self.names[k][i] = n
        elif kind == "new":
            if self.taken(0, None, n):
                cx.raises(RuntimeError, lambda: GP(EQ(), measure=self.ms[0], name=n), f"name {n} is taken in m0")
            else:
                self.ps.append(GP(EQ(), measure=self.ms[0], name=n))
                i = len(self.ps) - 1
                self.home.append(0)
                self.members[0].append(i)
                self.names[0][i] = n
        elif kind == "sum":
            self.ps.append(self.ps[0] + self.ps[1])
            self.home.append(0)
            for k in range(len(self.ms)):
                self.members[k].append(len(self.ps) - 1)
        else:
            self.ms.append(self.ms[k] | (self.ps[0](X, 0.1), X))
            self.members.append(list(self.members[k]))
            self.names.append({})
        cx.step()

    def verify(self):
        cx = self.cx
        for k, m in enumerate(self.ms):
            for i, p in enumerate(self.ps):
                if i in self.names[k]:
                    cx.check(m[p] == self.names[k][i], f"m{k}[p{i}] is {m[p]!r}, expected {self.names[k][i]!r}")
                else:
                    cx.raises(KeyError, lambda: m[p], f"p{i} has no name in m{k}")
            back = {n: i for i, n in self.names[k].items()}
            for n in NAMES + ["c", "d"]:
                if n in back:
                    cx.check(m[n] is self.ps[back[n]], f"m{k}[{n!r}] is the wrong process")
                else:
                    cx.raises(KeyError, lambda: m[n], f"{n!r} is not a name in m{k}")
            cx.raises(KeyError, lambda: m[self.u], "a foreign process has no name")
        for i, p in enumerate(self.ps):
            h = self.home[i]
            if i in self.names[h]:
                cx.check(p.name == self.names[h][i], f"p{i}.name")
            else:
                cx.raises(KeyError, lambda: p.name, f"p{i}.name")
        cx.state(self.names, self.members)


def prog(depth):
    def program(cx):
        w = World(cx)
        for _ in range(depth):
            w.do(cx.pick(w.actions(True), "do"))
            if cx.fresh:
                w.verify()

    return program


def harnesses(tier):
    return {"sequences": prog(5 if tier == "thorough" else 4)}
