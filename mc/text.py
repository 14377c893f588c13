"""Reads the text of a process back: a parser from text to the functions that the text denotes."""
import re

import numpy as np

from . import world

# Functions that may be mentioned, by name.
_FUNCTIONS = {
    "f_mul": world._f_np,
    "f_add": world._g_np,
    "<lambda>": lambda X: -world._g_np(X),  # The negative of a function has no name.
    "_fsum": lambda X: np.sin(X).sum(1) + 0.3,
}
_INPUTS = {
    "f_in": lambda X: 0.7 * X + 0.1 * X**2,
    "f_rot": lambda X: np.stack([X[:, 1] - X[:, 0], 0.5 * X[:, 0]], 1),
    "f_curve": lambda X: np.concatenate([np.cos(X), X], 1),
    "None": lambda X: X,
}


def tagged(x):
    """A formatter of which the use can be recognised, and the number read back exactly."""
    return f"<{np.asarray(x, dtype=float).tolist()!r}>"


class Unreadable(Exception):
    pass


def _dist(X, Z):
    return np.sqrt(np.maximum(((X[:, None, :] - Z[None, :, :]) ** 2).sum(-1), 0))


KERNELS = {
    "EQ()": lambda X, Z: np.exp(-0.5 * _dist(X, Z) ** 2),
    "Exp()": lambda X, Z: np.exp(-_dist(X, Z)),
    "Linear()": lambda X, Z: X @ Z.T,
    "1": lambda X, Z: np.ones((len(X), len(Z))),
    "0": lambda X, Z: np.zeros((len(X), len(Z))),
}
MEANS = {"1": lambda X: np.ones(len(X)), "0": lambda X: np.zeros(len(X))}


class Parser:
    """Recursive descent.  A kernel denotes a function of two inputs, a mean a function of one."""

    def __init__(self, text, kernel, plain):
        self.s, self.i, self.kernel, self.plain = text, 0, kernel, plain
        self.numbers = []

    def fail(self, what):
        raise Unreadable(f"{what} at {self.i} of {self.s!r}")

    def eat(self, t):
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def match(self, pattern):
        m = re.compile(pattern).match(self.s, self.i)
        if m:
            self.i = m.end()
        return m

    def whole(self):
        e = self.sum()
        if self.i != len(self.s):
            self.fail("rest")
        return e

    def sum(self):
        e = self.product()
        while self.eat(" + "):
            a, b = e, self.product()
            e = lambda *X, a=a, b=b: a(*X) + b(*X)
        return e

    def product(self):
        e = self.wrapped()
        while self.eat(" * "):
            a, b = e, self.wrapped()
            e = lambda *X, a=a, b=b: a(*X) * b(*X)
        return e

    def number(self):
        m = self.plain and self.match(r"array\((\[[-\d., ]+\])\)")
        if m:
            return np.array(eval(m.group(1), {}, {}))
        m = self.plain and self.match(r"\[([-\d. e]+)\]")
        if m:
            return np.array([float(t) for t in m.group(1).split()])
        m = self.match(r"-?\d+(\.\d*)?(e[-+]?\d+)?" if self.plain else r"<([^<>]*)>")
        if not m:
            return None
        v = eval(m.group(0) if self.plain else m.group(1), {}, {})
        self.numbers.append(v)
        return np.asarray(v, dtype=float)

    def numbers_of(self):
        """One number, or one for either argument in parentheses."""
        if self.eat("("):
            out = []
            while True:
                q = self.eat("'")
                v = self.number()
                if v is None:
                    self.fail("number expected")
                out.append(v)
                if q and not self.eat("'"):
                    self.fail("quote expected")
                if self.eat(")"):
                    break
                if not self.eat(", "):
                    self.fail("comma expected")
            return out
        v = self.number()
        if v is None:
            self.fail("number expected")
        return [v]

    def args(self, fs):
        """Apply functions of inputs to the arguments."""
        n = 2 if self.kernel else 1
        fs = fs * n if len(fs) == 1 else fs
        if len(fs) != n:
            self.fail(f"{len(fs)} instead of {n}")
        return lambda e: lambda *X: e(*[f(x) for f, x in zip(fs, X)])

    def wrapped(self):
        e = self.atom()
        while True:
            if self.eat(" shift "):
                e = self.args([lambda x, c=c: x - c for c in self.numbers_of()])(e)
            elif self.eat(" > "):
                e = self.args([lambda x, c=c: x / c for c in self.numbers_of()])(e)
            elif self.eat(" : "):
                m = self.match(r"\[[0-9, ]*\]") or self.match(r"\(.*?\)")
                if not m:
                    self.fail("dimensions expected")
                dims = eval(m.group(0), {}, {})
                dims = [dims] if isinstance(dims, list) else list(dims)
                e = self.args([lambda x, c=c: x if c is None else x[:, list(c)] for c in dims])(e)
            elif self.eat(" transform "):
                names = self.match(r"\(([\w, ]*)\)") or self.match(r"(\w+)")
                try:
                    fs = [_INPUTS[n] for n in names.group(1).split(", ")]
                except KeyError:
                    self.fail("transform")
                e = self.args(fs)(e)
            else:
                return e

    def atom(self):
        if self.eat("("):
            e = self.sum()
            if not self.eat(")"):
                self.fail("parenthesis expected")
            return e
        if self.kernel and self.eat("Reversed("):
            e = self.sum()
            if not self.eat(")"):
                self.fail("parenthesis expected")
            return lambda X, Z, e=e: e(Z, X).T
        m = self.match(r"(<lambda>|[A-Za-z_]\w*)(\(\))?( x (<lambda>|[A-Za-z_]\w*))?")
        if m:
            t = m.group(0)
            if t in KERNELS and self.kernel:
                return KERNELS[t]
            fs = t.split(" x ")
            if self.kernel and len(fs) == 2:
                # One of the two is `f_mul`; how the library calls its function that is one is its own business.
                g = [_FUNCTIONS[f] if f == "f_mul" else lambda X: np.ones(len(X)) for f in fs]
                return lambda X, Z: np.outer(g[0](X), g[1](Z))
            if len(fs) == 1 and t in _FUNCTIONS:
                g = [_FUNCTIONS[t]]
                if self.kernel:
                    return lambda X, Z, a=g[0], b=g[-1]: np.outer(a(X), b(Z))
                return g[0]
            self.fail("unknown name")
        m = self.match(r"[01](?![\d.])")
        if m:
            return (KERNELS if self.kernel else MEANS)[m.group(0)]
        v = self.number()
        if v is None:
            self.fail("unreadable")
        return lambda *X: v


def split(text):
    """Split at the commas that are not inside of parentheses."""
    out, depth, start = [], 0, 0
    for i, c in enumerate(text):
        depth += c in "([<"
        depth -= c in ")]" or (c == ">" and text[i - 1] != " ")
        if c == "," and depth == 0:
            out.append(text[start:i])
            start = i + 2
    return out + [text[start:]]


def read_process(text, plain):
    """The mean and the kernel of a text ``GP(mean, kernel)``; lists of these for multi-output processes."""
    if not (text.startswith("GP(") and text.endswith(")")):
        raise Unreadable(f"no process: {text!r}")
    parts = split(text[3:-1])
    if len(parts) != 2:
        raise Unreadable(f"{len(parts)} parts: {text!r}")
    m, k = parts
    if m.startswith("MultiOutputMean(") != k.startswith("MultiOutputKernel("):
        raise Unreadable(f"outputs: {text!r}")
    if m.startswith("MultiOutputMean("):
        ms, ks = split(m[len("MultiOutputMean(") : -1]), split(k[len("MultiOutputKernel(") : -1])
    else:
        ms, ks = [m], [k]
    return [Parser(t, False, plain).whole() for t in ms], [Parser(t, True, plain).whole() for t in ks]
