"""A world runs operations on the real library and on the reference model in lock-step."""
import lab as B
import numpy as np
import stheno
from mlkernels import EQ, Exp, Linear
from stheno import GP, Measure

from . import ref
from .ref import RM, RObs, Tag

# Irregular, well separated inputs.
_X1 = np.array([0.31, -0.94, 1.57, 2.63, -2.2, 0.83, 3.71, -3.4])
_X2 = np.array([[0.31, 1.2], [-0.94, 0.4], [1.57, -0.7], [2.1, 1.9], [-1.8, -1.3], [0.6, -2.2]])
XA = {1: _X1[:3, None], 2: _X2[:3]}
XB = {1: _X1[3:5, None], 2: _X2[3:5]}
XC = {1: _X1[5:8, None], 2: _X2[[5, 0, 2]]}
OBS = {1: np.array([[-1.4], [0.2], [1.1], [2.05]]), 2: np.array([[-1.1, 0.3], [0.5, 0.9], [1.3, -1.2], [-0.2, -0.8]])}
Y = np.array([0.7, -0.35, 1.25, -1.6])


def rx(X):
    """How inputs are given to the library: vectors if one-dimensional."""
    return X[:, 0] if X.shape[1] == 1 else X


# -- base processes: name -> (d, kernel, reference kernel, mean, reference mean) ----------------------------
def _fsum(x):
    return B.sum(B.sin(x), axis=-1)[..., None] + 0.3


def bases():
    return {
        "eq": (1.3 * EQ().stretch(0.9), ref.k_eq(0.9, 1.3), 0.8, lambda X: np.full(len(X), 0.8)),
        "lin": (0.6 * Linear() + 0.4 * EQ().stretch(2.1), lambda X, Y: ref.k_lin(0.6)(X, Y) + ref.k_eq(2.1, 0.4)(X, Y), _fsum, lambda X: np.sin(X).sum(1) + 0.3),
        "exp": (Exp().stretch(1.7), ref.k_m12(1.7), None, lambda X: np.zeros(len(X))),
    }


# Relative to 1 + |value|.  The library regularises Cholesky factorisations and Woodbury inverses with 1e-12, which is
# amplified in nearly singular cases (kernels of low rank are avoided for that reason).
TOL = 1e-5


class P:
    """A process, real and in the reference."""

    def __init__(self, real, label, d=1, out=1, home=None):
        self.real, self.label, self.d, self.out, self.home = real, label, d, out, home

    def __repr__(self):
        return self.label


class World:
    def __init__(self, cx):
        self.cx = cx
        self.ms = []
        self.ps = []

    # -- measures ----------------------------------------------------------------------------------------
    def measure(self):
        m = RM(real=Measure())
        self.ms.append(m)
        return m

    def base(self, m, key, d=1, label=None, **kw):
        k, rk, mu, rmu = bases()[key]
        real = GP(k, measure=m.real, **kw) if mu is None else GP(mu, k, measure=m.real, **kw)
        p = P(real, label or key, d, home=m)
        m.add_base(p, rk, rmu)
        self.ps.append(p)
        self.cx.step()
        return p

    # -- linear operations -------------------------------------------------------------------------------
    def lin(self, real, label, ps, view, d=None, out=None):
        """New process `real` whose view at `spec` is `view(*[views of ps])`, in all measures of all of `ps`."""
        p = P(real, label, ps[0].d if d is None else d, ps[0].out if out is None else out, ps[0].home)
        for m in self.ms:
            if all(m.has(q) for q in ps):
                m.defs[p] = self._view(m, ps, view)
        self.ps.append(p)
        self.cx.step()
        return p

    @staticmethod
    def _view(m, ps, view):
        return lambda X: view(X, *[(lambda q: (lambda s: m.at(q, s)))(q) for q in ps])

    def cross(self, *ps, real=None):
        real = stheno.cross(*[q.real for q in ps]) if real is None else real
        p = P(real, "cross(" + ",".join(q.label for q in ps) + ")", ps[0].d, sum(q.out for q in ps), ps[0].home)
        for m in self.ms:
            if all(m.has(q) for q in ps):
                m.add_cross(p, ps)
        self.ps.append(p)
        self.cx.step()
        return p

    def product(self, p, q):
        r = P(p.real * q.real, f"({p}*{q})", p.d, home=p.home)
        for m in self.ms:
            if m.has(p) and m.has(q):
                m.add_product(r, p, q)
        self.ps.append(r)
        self.cx.step()
        return r

    # -- conditioning ------------------------------------------------------------------------------------
    def posterior(self, m, obs, real):
        post = RM(m, obs, real)
        self.ms.append(post)
        self.cx.step()
        return post

    def copy(self, m, p):
        """The process of measure `m` that acts like `p`."""
        q = P(m.real(p.real), f"post{self.ms.index(m)}({p})", p.d, p.out, m)
        m.defs[q] = lambda s: m.at(p, s)
        self.ps.append(q)
        self.cx.step()
        return q

    def observe(self, m, p, X, noise, y, real_measure=None):
        """Condition measure `m` on noisy observations of `p`: noise as a scalar or vector."""
        N = np.diag(np.broadcast_to(np.asarray(noise, float), (len(y),)))
        real = m.real | (p.real(rx(X), noise), y)
        return self.posterior(m, RObs(p, X, N, y), real)

    # -- comparison --------------------------------------------------------------------------------------
    def same_mean(self, m, p, X=None, tol=TOL, what=""):
        X = XA[p.d] if X is None else X
        w = m.m(p, X)
        self.cx.close(m.real.means[p.real](rx(X)), w[:, None], f"{what}mean of {p}", tol)
        return w

    def same_cov(self, m, p, q, X=None, Z=None, tol=TOL, what=""):
        X = XA[p.d] if X is None else X
        Z = XB[q.d] if Z is None else Z
        w = m.k(p, X, q, Z)
        self.cx.close(m.real.kernels[p.real, q.real](rx(X), rx(Z)), w, f"{what}covariance between {p} and {q}", tol)
        return w

    def same_elwise(self, m, p, q, X=None, Z=None, tol=TOL, what=""):
        X = XA[p.d] if X is None else X
        Z = XC[q.d] if Z is None else Z
        w = np.diag(m.k(p, X, q, Z))
        self.cx.close(m.real.kernels[p.real, q.real].elwise(rx(X), rx(Z)), w[:, None], f"{what}element-wise covariance of {p} and {q}", tol)

    def compare(self, m, ps=None, new=None, tol=TOL, what="", elwise=True, same_x=True):
        """Compare means and all cross-covariances (of `new` with everything) under measure `m`."""
        ps = [p for p in (self.ps if ps is None else ps) if m.has(p)]
        new = [p for p in (ps if new is None else new) if m.has(p)]
        parts = []
        for p in new:
            parts.append(self.same_mean(m, p, tol=tol, what=what))
        for p in new:
            for q in ps:
                parts.append(self.same_cov(m, p, q, tol=tol, what=what))
                if q not in new:
                    self.same_cov(m, q, p, tol=tol, what=what)
                if elwise and p.out == q.out:
                    self.same_elwise(m, p, q, tol=tol, what=what)
                    if q not in new:
                        self.same_elwise(m, q, p, tol=tol, what=what)
            if same_x:
                X = XA[p.d]
                w = m.k(p, X, p, X)
                self.cx.close(m.real.kernels[p.real](rx(X)), w, f"{what}variance of {p}", tol)
                self.cx.close(m.real.kernels[p.real].elwise(rx(X)), np.diag(w)[:, None], f"{what}element-wise variance of {p}", tol)
                if p.home is m:
                    mean, var = p.real(rx(X)).marginals()
                    self.cx.close(mean, m.m(p, X), f"{what}marginal mean of {p}", tol)
                    self.cx.close(var, np.diag(w), f"{what}marginal variance of {p}", tol)
        self.cx.state([np.concatenate([np.ravel(a) for a in parts])])


# -- the alphabet of linear operations ----------------------------------------------------------------------
def _f_np(X):
    return 0.5 + (X**2).sum(1) * 0.25


def f_mul(x):
    return 0.5 + B.sum(x**2, axis=-1)[..., None] * 0.25


def _g_np(X):
    return np.cos(X).sum(1) - 0.2


def f_add(x):
    return B.sum(B.cos(x), axis=-1)[..., None] - 0.2


def f_in(x):
    return 0.7 * x + 0.1 * x**2


def _scaled(c):
    return lambda X, a: a(X).scale(c)


def _offset(c):
    return lambda X, a: a(X).shift(c)


def unary(d, full=True):
    """(label, real operation, reference view, resulting input dimension or None) for one operand."""
    ops = [
        ("-2*p", lambda p: -2 * p, _scaled(-2)),
        ("p+1.5", lambda p: p + 1.5, _offset(1.5)),
        ("p*f", lambda p: p * f_mul, lambda X, a: a(X).scale(_f_np(X))),
        ("shift", lambda p: p.shift(0.6), lambda X, a: a(X - 0.6)),
        ("stretch", lambda p: p.stretch(1.8), lambda X, a: a(X / 1.8)),
        ("transform", lambda p: p.transform(f_in), lambda X, a: a(0.7 * X + 0.1 * X**2)),
    ]
    if full:
        ops += [
            ("-p", lambda p: -p, _scaled(-1)),
            ("2*p", lambda p: 2 * p, _scaled(2)),
            ("p-g", lambda p: p - f_add, lambda X, a: a(X).shift(-_g_np(X))),
            ("p*-0.5", lambda p: p * -0.5, _scaled(-0.5)),
            ("p/4", lambda p: p / 4, _scaled(0.25)),
            ("p*0", lambda p: p * 0, _scaled(0.0)),
            ("1*p", lambda p: 1 * p, _scaled(1.0)),
            ("np.float64*p", lambda p: p * np.float64(-1.7), _scaled(-1.7)),
            ("0d*p", lambda p: p * np.array(1.3), _scaled(1.3)),
            ("p/-0.4", lambda p: p / -0.4, _scaled(-2.5)),
            ("p/0d", lambda p: p / np.array(0.8), _scaled(1.25)),
            ("2+p", lambda p: 2 + p, _offset(2)),
            ("p+0", lambda p: p + 0, _offset(0)),
            ("p-1", lambda p: p - 1, _offset(-1)),
            ("3-p", lambda p: 3 - p, lambda X, a: a(X).scale(-1).shift(3)),
            ("p+g", lambda p: p + f_add, lambda X, a: a(X).shift(_g_np(X))),
            ("g+p", lambda p: f_add + p, lambda X, a: a(X).shift(_g_np(X))),
            ("g-p", lambda p: f_add - p, lambda X, a: a(X).scale(-1).shift(_g_np(X))),
            ("f*p", lambda p: f_mul * p, lambda X, a: a(X).scale(_f_np(X))),
            ("shift-", lambda p: p.shift(-1.1), lambda X, a: a(X + 1.1)),
            ("shift0", lambda p: p.shift(0), lambda X, a: a(X)),
            ("stretch<1", lambda p: p.stretch(0.4), lambda X, a: a(X / 0.4)),
            ("stretch1", lambda p: p.stretch(1), lambda X, a: a(X)),
            ("p+p", lambda p: p + p, _scaled(2)),
            ("p-p", lambda p: p - p, _scaled(0)),
        ]
    ops = [o + (None,) for o in ops]
    if d == 1:
        ops += [
            ("select1of2", lambda p: p.select(1), lambda X, a: a(X[:, [1]]), 2),
        ]
    else:
        ops += [
            ("select10", lambda p: p.select(1, 0), lambda X, a: a(X[:, [1, 0]]), None),
            ("shiftv", lambda p: p.shift(np.array([0.5, -0.8])), lambda X, a: a(X - np.array([0.5, -0.8])), None),
            ("stretchv", lambda p: p.stretch(np.array([1.4, 0.7])), lambda X, a: a(X / np.array([1.4, 0.7])), None),
        ]
        if full:
            ops += [
                ("select00", lambda p: p.select(0, 0), lambda X, a: a(X[:, [0, 0]]), None),
                ("select01", lambda p: p.select(0, 1), lambda X, a: a(X), None),
                ("transform2", lambda p: p.transform(f_rot), lambda X, a: a(np.stack([X[:, 1] - X[:, 0], 0.5 * X[:, 0]], 1)), None),
                ("fromscalar", lambda p: p.transform(f_curve), lambda X, a: a(np.concatenate([np.cos(X), X], 1)), 1),
            ]
    return ops


def f_rot(x):
    return B.stack(x[..., 1] - x[..., 0], 0.5 * x[..., 0], axis=-1)


def f_curve(x):
    x = B.uprank(x)
    return B.concat(B.cos(x), x, axis=-1)


def binary(full=True):
    ops = [
        ("p+q", lambda p, q: p + q, lambda X, a, b: a(X) + b(X)),
        ("p-q", lambda p, q: p - q, lambda X, a, b: a(X) + b(X).scale(-1)),
    ]
    if full:
        ops += [("q+p", lambda p, q: q + p, lambda X, a, b: a(X) + b(X))]
        ops += [("q-p", lambda p, q: q - p, lambda X, a, b: a(X).scale(-1) + b(X))]
    return ops


def step_linear(w, cx, ps=None, full=True, name="op"):
    """Choose one linear operation over the processes `ps` and do it."""
    ps = w.ps if ps is None else ps
    alts = []
    for p in ps:
        alts += [(f"{o[0]}[{p}]", o, (p,)) for o in unary(p.d, full)]
    for i, p in enumerate(ps):
        for q in ps[i + 1 :]:
            if p.d == q.d and p.out == q.out:
                alts += [(f"{o[0]}[{p},{q}]", o + (None,), (p, q)) for o in binary(full)]
    label, o, args = cx.pick(alts, name)
    return w.lin(o[1](*[a.real for a in args]), label, args, o[2], d=o[3])
