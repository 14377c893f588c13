"""Stateless, exhaustive exploration of the executions of a *program over choices*.

A program is a function ``program(cx)``.  It calls ``cx.choose(n, label)`` (or ``cx.pick``) whenever the
environment has ``n`` alternatives; the explorer runs the program once for every complete sequence of choices
(depth-first, replaying a prefix and then taking alternative 0).  Within an execution the program drives the
real library and compares what it observes with a reference model: ``cx.fail`` or a failing comparison is a
violation, and so is any exception that the program does not expect.
"""
import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait
from concurrent.futures.process import BrokenProcessPool

import numpy as np

SLICE_S = 0.7  # Workers hand back what remains of their part after this time.
EXEC_LIMIT_S = 180  # An execution (normally well below a second) that takes longer is a hang.


class Violation(Exception):
    pass


class Diverged(Exception):
    """Replaying a prefix met different choice points: the harness lost control of nondeterminism."""


class _Probe(Exception):
    def __init__(self, n):
        self.n = n


class Prune(Exception):
    """Raised by a program to abandon an execution whose choices do not make sense."""


class Hang(BaseException):
    pass


class Cx:
    """Choices and observations of one execution."""

    def __init__(self, prefix=(), probe=False, tier="quick"):
        self.prefix = list(prefix)
        self.probe = probe
        self.tier = tier
        self.choices, self.widths, self.labels = [], [], []
        self.transitions = 0
        self.states = set()
        self.outcome = hashlib.blake2b(digest_size=8)
        self.comparisons = 0
        self.known = []

    # -- choices ---------------------------------------------------------------------------------------
    def choose(self, n, label=""):
        if n < 1:
            raise Prune()
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if not 0 <= c < n:
                raise Diverged(f"choice {i} is {c} of {n} at {label}")
        else:
            if self.probe:
                raise _Probe(n)
            c = 0
        self.choices.append(c)
        self.widths.append(n)
        self.labels.append(f"{label}#{c}" if label else f"#{c}")
        return c

    def pick(self, seq, label="", show=True):
        seq = list(seq)
        i = self.choose(len(seq), label)
        if show:
            s = seq[i][0] if isinstance(seq[i], tuple) and seq[i] and isinstance(seq[i][0], str) else seq[i]
            s = s if isinstance(s, (str, int, float, bool, tuple, type(None))) else getattr(s, "__name__", i)
            self.labels[-1] = f"{label}={s}" if label else f"{s}"
        return seq[i]

    @property
    def fresh(self):
        """Is this execution the one that is responsible for checking the current node?

        Every node of the choice tree lies on many executions; exactly one of them (the one that continues with
        alternative 0) needs to compare the state reached there with the model.
        """
        return not self.probe and not any(self.prefix[len(self.choices):])

    # -- observations ----------------------------------------------------------------------------------
    def step(self, n=1):
        """Count an operation executed on the real library."""
        self.transitions += n

    def state(self, *parts):
        """Record the (canonical) state reached."""
        h = hashlib.blake2b(digest_size=8)
        _feed(h, parts)
        d = h.digest()
        self.states.add(d)
        self.outcome.update(d)

    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        self.comparisons += 1
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def close(self, got, want, msg, tol=1e-5, shape=True):
        """Compare numbers (dense or structured) with a reference."""
        self.comparisons += 1
        try:
            g = dense(got)
        except Exception as e:  # noqa
            raise Violation(f"{msg}: result {type(got).__name__} is not numeric: {e!r}")
        w = np.asarray(want)
        if shape and g.shape != w.shape:
            raise Violation(f"{msg}: shape {g.shape}, expected {w.shape}")
        if g.size and w.size:
            if not np.all(np.isfinite(w)):
                raise AssertionError(f"reference not finite: {msg}")
            with np.errstate(all="ignore"):
                g64, w64 = g.astype(np.float64), w.astype(np.float64)
                ok = np.all(np.isfinite(g64)) and bool(np.all(np.abs(g64 - w64) <= tol * (1 + np.abs(w64))))
            if not ok:
                raise Violation(f"{msg}: got {short(g64)}, expected {short(w64)}")
        self.outcome.update(np.round(w.astype(np.float64) if w.size else np.zeros(0), 5).tobytes())

    def raises(self, exc, f, msg):
        self.comparisons += 1
        try:
            r = f()
        except exc:
            return
        except Exception as e:
            raise Violation(f"{msg}: raised {type(e).__name__} ({str(e)[:100]}), expected {exc}")
        raise Violation(f"{msg}: expected {exc}, got {short(r)}")


def dense(a):
    import lab as B

    if isinstance(a, np.ndarray) or np.isscalar(a):
        return np.asarray(a)
    return np.asarray(B.to_numpy(B.dense(a)))


def short(a):
    s = np.array2string(np.asarray(a), precision=6, threshold=12) if not isinstance(a, str) else a
    s = " ".join(s.split())
    return s if len(s) < 160 else s[:157] + "..."


def _feed(h, x):
    if isinstance(x, (tuple, list)):
        h.update(b"(")
        for y in x:
            _feed(h, y)
        h.update(b")")
    elif isinstance(x, (set, frozenset)):
        for y in sorted(map(repr, x)):
            h.update(y.encode())
    elif isinstance(x, np.ndarray):
        h.update(np.round(np.asarray(x, dtype=np.float64) + 0.0, 6).tobytes() + str(x.shape).encode())
    elif isinstance(x, float):
        h.update(repr(round(x, 6) + 0.0).encode())
    else:
        h.update(repr(x).encode() + b";")


def _alarm(signum, frame):
    raise Hang()


class Stats:
    def __init__(self):
        self.executions = self.pruned = self.transitions = self.comparisons = 0
        self.states, self.outcomes = set(), set()
        self.violations, self.samples, self.known = [], [], []
        self.rest = []
        self.capped = False

    def merge(self, o):
        self.executions += o.executions
        self.pruned += o.pruned
        self.transitions += o.transitions
        self.comparisons += o.comparisons
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.violations += o.violations
        self.known += o.known
        self.capped |= o.capped
        self.samples += o.samples


def run_once(program, prefix, tier, probe=False):
    cx = Cx(prefix, probe=probe, tier=tier)
    err = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            program(cx)
    except _Probe:
        raise
    except Prune:
        err = "prune"
    except Diverged as e:
        err = ("violation", f"execution is not deterministic: {e}", "")
    except Violation as e:
        err = ("violation", str(e), "")
    except Hang:
        err = ("violation", f"execution did not finish within {EXEC_LIMIT_S} s", "")
    except Exception as e:
        tb = traceback.format_exc(limit=-12)
        err = ("violation", f"unexpected {type(e).__name__}: {str(e)[:300]}", tb)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return cx, err


def explore(program, prefixes, tier, deadline, slice_s=None):
    """Explore all executions that start with one of `prefixes`.

    After `slice_s` seconds, the prefixes that remain are left in `stats.rest`, to be divided among the workers.
    """
    st = Stats()
    stack = [list(p) for p in prefixes]
    t0 = time.time()
    while stack:
        if slice_s is not None and time.time() - t0 > slice_s:
            st.rest = stack
            break
        if time.time() > deadline:
            st.capped = True
            break
        p = stack.pop()
        _t = time.time()
        cx, err = run_once(program, p, tier)
        if os.environ.get("VERIF_TIMES"):
            print("TIME", round(time.time() - _t, 3), ";".join(cx.labels), flush=True)
        if err == "prune":
            st.pruned += 1
        else:
            st.executions += 1
            st.transitions += cx.transitions
            st.comparisons += cx.comparisons
            st.states |= cx.states
            st.outcomes.add(cx.outcome.digest())
            if len(st.samples) < 1:
                st.samples.append(" ; ".join(cx.labels))
            st.known += cx.known
        if err and err != "prune":
            st.violations.append(dict(choices=cx.choices, labels=cx.labels, message=err[1], traceback=err[2]))
            break
        for i in range(len(cx.choices) - 1, len(p) - 1, -1):
            for alt in range(cx.widths[i] - 1, 0, -1):
                stack.append(cx.choices[:i] + [alt])
    return st


def _init():
    gc.set_threshold(100000, 20, 20)


_HARNESSES = None
_TIER = "quick"


def _task(args):
    name, prefixes, deadline = args
    st = explore(_HARNESSES[name], prefixes, _TIER, deadline, SLICE_S)
    return name, st


def split(program, tier, target):
    """Enumerate prefixes of the choice tree breadth-first until there are about `target` of them."""
    done, level = [], [[]]
    while level and len(done) + len(level) < target:
        nxt = []
        for p in level:
            try:
                run_once(program, p, tier, probe=True)
                done.append(p)  # Complete execution.
            except _Probe as e:
                nxt += [p + [i] for i in range(e.n)]
        if len(nxt) > 60 * target:
            # A very wide choice: stop splitting here.
            level = nxt
            break
        level = nxt
    return done + level


def run(harnesses, tier, budget_s, workers=None, seed=1, progress=None, stop_on_violation=True):
    """Explore all harnesses.  Returns {name: Stats}."""
    global _HARNESSES, _TIER
    _HARNESSES, _TIER = harnesses, tier
    t0 = time.time()
    deadline = t0 + budget_s
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or len(os.sched_getaffinity(0))
    res = {n: Stats() for n in harnesses}
    rng = random.Random(seed)
    tasks = [(n, [p], deadline) for n, prog in harnesses.items() for p in split(prog, tier, 3 * workers)]
    rng.shuffle(tasks)
    ctx = mp.get_context("fork")
    bad = None
    with ProcessPoolExecutor(workers, mp_context=ctx, initializer=_init) as ex:
        pending = set()
        try:
            while tasks or pending:
                while tasks and len(pending) < workers + 2:
                    pending.add(ex.submit(_task, tasks.pop()))
                fin, pending = wait(pending, return_when=FIRST_COMPLETED)
                for f in fin:
                    n, st = f.result()
                    # What remains is divided over new tasks.
                    k = max(1, -(-len(st.rest) // 4))
                    for i in range(0, len(st.rest), k):
                        tasks.insert(rng.randrange(len(tasks) + 1), (n, st.rest[i : i + k], deadline))
                    keep = 3 - len(res[n].samples)
                    st.samples = st.samples[: max(keep, 0)]
                    res[n].merge(st)
                    if st.violations:
                        bad = n
                if bad and stop_on_violation:
                    for f in pending:
                        f.cancel()
                    break
        except BrokenProcessPool:
            res[next(iter(harnesses))].violations.append(
                dict(choices=None, labels=["(worker process died)"], message="a worker process died (crash or out of memory)", traceback="")
            )
        finally:
            procs = list((ex._processes or {}).values())
            if bad:
                for p in procs:
                    p.terminate()
            ex.shutdown(wait=True, cancel_futures=True)
    return res
