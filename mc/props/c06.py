"""C06: the default measure is scoped exactly by with-blocks."""
from stheno import GP, EQ, Measure

import numpy as np

BOUNDS = {
    "quick": "all sequences of 6 actions: enter one of three measures (two priors and a posterior; also one that is open already), leave "
             "normally, leave by an exception, condition, and a construction of each kind after every action; all recursive with-statements to depth 3",
    "thorough": "sequences of 7 actions, recursion to depth 4",
}
X = np.array([0.1, 0.9])


class Boom(Exception):
    pass


def probe(cx, stack, ms, n):
    """Construct processes now and look where they end up."""
    want = stack[-1] if stack else None
    p = GP(EQ())
    others = [m for m in ms if m is not want]
    if want is None:
        cx.check(all(p.measure is not m for m in ms), f"no block is open, but a process joined an existing measure (after {cx.labels})")
        q = GP(EQ())
        cx.check(q.measure is not p.measure, "no block is open, but two processes share a measure")
    else:
        cx.check(p.measure is want, f"a process did not join the measure of the innermost block (after {cx.labels})")
    e = others[n % len(others)] if others else ms[0]
    q = GP(1, EQ(), measure=e)
    cx.check(q.measure is e, "an explicit measure did not win")
    cx.check((2 * q + 1).measure is e and (q + q).measure is e, "a derived process left its measure")
    r = GP(EQ(), measure=None)
    cx.check((r.measure is want) if want is not None else all(r.measure is not m for m in ms), "measure=None is not the default")
    r = GP(lambda x: x, EQ(), name=f"name{n}")
    cx.check((r.measure is want) if want is not None else all(r.measure is not m for m in ms), "a named process did not join the default measure")
    cx.step(5)


def sequences(depth):
    def prog(cx):
        Measure.default = None
        try:
            ms = [Measure(), Measure()]
            f = GP(EQ(), measure=ms[0])
            ms.append(ms[0] | (f(X, 0.1), X))
            stack, n = [], 0
            for i in range(depth):
                acts = [("enter", m) for m in range(3)] + ([("exit", None), ("raise", None)] if stack else []) + [("condition", None)]
                a, m = cx.pick(acts, "do", show=False)
                cx.labels[-1] = f"{a} {'' if m is None else m}"
                if a == "enter":
                    r = ms[m].__enter__()
                    cx.check(r is ms[m], "entering a block does not give the measure")
                    stack.append(ms[m])
                elif a == "exit":
                    cx.check(not stack.pop().__exit__(None, None, None), "a block swallows exceptions")
                elif a == "raise":
                    e = Boom()
                    cx.check(not stack.pop().__exit__(Boom, e, None), "a block swallows exceptions")
                else:
                    f | (f(X, 0.1), X)
                    f + f
                cx.step()
                if cx.fresh:
                    probe(cx, stack, ms, i)
                cx.state([ms.index(s) for s in stack])
            while stack:
                stack.pop().__exit__(None, None, None)
                if cx.fresh:
                    probe(cx, stack, ms, 20 + len(stack))
            cx.check(Measure.default is None, "a default is in force after all blocks were left")
        finally:
            Measure.default = None

    return prog


def recursion(depth):
    """Real with-statements, left by exceptions that are caught further out."""

    def prog(cx):
        Measure.default = None
        try:
            ms = [Measure(), Measure()]
            count = [0]

            def body(d, stack):
                probe(cx, stack, ms, count[0])
                count[0] += 1
                for _ in range(2 if d == depth else 1):
                    if d == 0:
                        return
                    act = cx.pick(["stop", "with 0", "with 1", "raise"], f"depth{depth - d}")
                    cx.state(d, act, [ms.index(s) for s in stack])
                    if act == "stop":
                        return
                    if act == "raise":
                        raise Boom()
                    m = ms[int(act[-1])]
                    catch = cx.pick(["inside", "outside"], "catch")
                    if catch == "inside":
                        with m:
                            try:
                                body(d - 1, stack + [m])
                            except Boom:
                                pass
                            probe(cx, stack + [m], ms, 100 + count[0])
                            count[0] += 1
                    else:
                        try:
                            with m as inner:
                                cx.check(inner is m, "with does not bind the measure")
                                body(d - 1, stack + [m])
                        except Boom:
                            cx.check(True, "")
                    probe(cx, stack, ms, 1000 + count[0])
                    count[0] += 1

            try:
                body(depth, [])
            except Boom:
                pass
            probe(cx, [], ms, 5000)
        finally:
            Measure.default = None

    return prog


def harnesses(tier):
    deep = tier == "thorough"
    return {"sequences": sequences(7 if deep else 6), "recursion": recursion(4 if deep else 3)}
