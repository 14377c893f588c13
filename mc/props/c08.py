"""C08: lazy vectors and matrices behave like write-once tables with rules."""
import itertools

from stheno.lazy import LazyMatrix, LazyVector

BOUNDS = {
    "quick": "vector: all sequences of 4 actions over three indices; matrix: all sequences of 3 actions over two objects and of 2 actions over "
             "two objects and an integer (assignments, universal, left and right rules on all domains, with builders that succeed, fail, or look up "
             "other elements, and look-ups; elements that are false or None), every element looked up at the end in two orders",
    "thorough": "one action more",
}


class Obj:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):  # Equal to everything: look-ups must go by identity.
        return True

    def __hash__(self):
        return 1

    def __bool__(self):  # Also elements that are false are elements.
        return not any(d in self.n for d in "1357")

    def __repr__(self):
        return self.n


class Boom(Exception):
    pass


class Table:
    """Model: a store and lists of rules; real: LazyVector or LazyMatrix."""

    def __init__(self, cx, rank, keys):
        self.cx, self.rank, self.keys = cx, rank, keys
        self.real = LazyVector() if rank == 1 else LazyMatrix()
        self.store, self.rules, self.left, self.right = {}, [], [], []
        self.n = 0

    def id(self, k):
        return k if isinstance(k, int) else id(k)

    def ix(self, idx):
        # How the index is written.
        return idx[0] if self.rank == 1 else tuple(idx)

    def value(self):
        self.n += 1
        return Obj(f"v{self.n}")

    def set(self, idx):
        v = self.value()
        v = None if self.n % 3 == 2 else v
        self.real[self.ix(idx)] = v
        self.store[tuple(map(self.id, idx))] = v

    def set_single(self, k):
        v = self.value()
        self.real[k] = v
        self.store[(self.id(k),) * self.rank] = v

    def builder(self, kind, arity):
        """A builder which records its calls; the model calls it as well."""
        tag = self.value()

        def real(*args):
            self.calls.append((tag.n, args))
            if kind == "fail":
                raise Boom(tag.n)
            if kind == "look":
                # Builders look up other elements (like the rules of measures do).
                k = self.id(self.keys[0])
                return self.real[(k,) * self.rank if self.rank > 1 else k]
            return self.made.setdefault((tag.n, args), Obj(f"{tag.n}{args}"))

        return dict(tag=tag.n, kind=kind, real=real)

    calls = made = None

    def add(self, kind, where, dom, i=None):
        dom = set(map(self.id, dom))
        b = self.builder(kind, None)
        if where == "u":
            self.real.add_rule(dom, b["real"])
            self.rules.append((frozenset(dom), b))
        elif where == "l":
            self.real.add_left_rule(self.id(i), dom, b["real"])
            self.left.append((self.id(i), frozenset(dom), b))
        else:
            self.real.add_right_rule(self.id(i), dom, b["real"])
            self.right.append((self.id(i), frozenset(dom), b))
        # The domain is fixed now.
        dom.clear()
        dom.update([self.id(k) for k in self.keys] if where == "u" else [])

    def model(self, ids, depth=0):
        """(value or exception type, stored?)"""
        if ids in self.store:
            return self.store[ids]
        rule, args = None, None
        for dom, b in self.rules:
            if all(i in dom for i in ids):
                rule, args = b, ids
                break
        else:
            if self.rank == 2:
                for i, dom, b in self.left:
                    if ids[0] == i and ids[1] in dom:
                        rule, args = b, (ids[1],)
                        break
                else:
                    for i, dom, b in self.right:
                        if ids[1] == i and ids[0] in dom:
                            rule, args = b, (ids[0],)
                            break
        if rule is None:
            raise LookupError()
        self.mcalls.append((rule["tag"], args))
        if rule["kind"] == "fail":
            raise Boom()
        if rule["kind"] == "look":
            k = (self.id(self.keys[0]),) * self.rank
            if depth > 3 or k == ids:
                raise RecursionError()
            v = self.model(k, depth + 1)
        else:
            v = self.made.setdefault((rule["tag"], args), Obj(f"{rule['tag']}{args}"))
        self.store[ids] = v
        return v

    def get(self, idx, single=None):
        ids = tuple(map(self.id, idx))
        self.calls, self.mcalls = [], []
        self.made = self.made or {}
        try:
            want = self.model(ids)
        except Boom:
            want = "boom"
        except LookupError:
            want = "absent"
        except RecursionError:
            return "skip"
        try:
            got = self.real[self.ix(idx) if single is None else single]
        except Boom:
            got = "boom"
        except RuntimeError:
            got = "absent"
        self.cx.check(got is want, lambda: f"element {idx}: got {got!r}, expected {want!r}")
        self.cx.check(self.calls == self.mcalls, lambda: f"element {idx}: builders called {self.calls}, expected {self.mcalls}")
        return repr(want)


def actions(t, objs, small):
    acts = []
    keys = t.keys
    for idx in itertools.product(keys, repeat=t.rank):
        acts.append((f"set{idx}", lambda idx=idx: t.set(idx)))
        acts.append((f"get{idx}", lambda idx=idx: t.get(idx)))
    if t.rank == 2:
        for k in keys[:1] if small else keys:
            acts.append((f"get[{k}]", lambda k=k: t.get((k, k), single=k)))
            acts.append((f"set[{k}]", lambda k=k: t.set_single(k)))
    doms = [d for r in (1, 2) for d in itertools.combinations(keys, r)] if len(keys) < 3 or t.rank == 1 else [(keys[0],), (keys[2],), keys]
    kinds = ["ok", "fail"] if t.rank == 1 else ["ok"]
    for d in doms:
        for kind in kinds:
            acts.append((f"rule{d}{kind}", lambda d=d, kind=kind: t.add(kind, "u", d)))
    acts.append(("rule fails", lambda: t.add("fail", "u", keys)))
    acts.append(("rule looks up", lambda: t.add("look", "u", keys)))
    if t.rank == 2:
        for d in doms:
            for k in keys[:2]:
                acts.append((f"left {k}{d}", lambda d=d, k=k: t.add("ok", "l", d, k)))
                acts.append((f"right {k}{d}", lambda d=d, k=k: t.add("ok", "r", d, k)))
        acts.append(("left fails", lambda: t.add("fail", "l", keys, keys[0])))
        acts.append(("right looks up", lambda: t.add("look", "r", keys, keys[1])))
    return acts


def prog(rank, nobj, ints, depth):
    def program(cx):
        keys = tuple(Obj(f"k{i}") for i in range(nobj)) + tuple(ints)
        t = Table(cx, rank, keys)
        for _ in range(depth):
            cx.pick(actions(t, keys, depth > 3), "do")[1]()
            cx.step()
        order = cx.choose(2, "order")
        idxs = list(itertools.product(keys, repeat=rank))
        res = [t.get(i) for i in (idxs if order == 0 else idxs[::-1])]
        # Again: the same objects, and no builder runs for what was found.
        res2 = [t.get(i) for i in (idxs if order == 0 else idxs[::-1])]
        cx.check(res == res2, "a second look gives something else")
        if rank == 2:
            for k in keys:
                t.get((k, k), single=k)
        unknown = Obj("unknown")
        t.get((unknown,) * rank)
        cx.state(res)

    return program


def harnesses(tier):
    d = 1 if tier == "thorough" else 0
    return {"vector": prog(1, 2, (7,), 4 + d), "matrix": prog(2, 2, (), 3 + d), "matrix-int": prog(2, 2, (3,), 2 + d)}
