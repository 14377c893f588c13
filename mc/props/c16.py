"""C16: all backends and data types give the same answers."""
import atexit
import importlib
import os
import shutil
import tempfile
import warnings

import lab as B
import numpy as np
from mlkernels import EQ, Linear, Matern32
from stheno import GP, Measure, Normal, PseudoObs, PseudoObsDTC, PseudoObsFITC, cross

from .. import boot, integers
from ..engine import Prune

BOUNDS = {
    "quick": "all of NumPy, AutoGrad, TensorFlow, PyTorch, JAX in double and single precision x 8 models x 6 ways of conditioning x 4 kinds of noise with all queries (eager); "
             "compiled and differentiated with respect to all inputs, observations, noise and parameters for one kind of noise (every model and way of conditioning with two of three libraries); "
             "integers: 5 kernels x 4 means x 10 operations x 9 noises x 4 choices of what is an integer, 48 of these in 5 ways of conditioning, and 12 x 4 normal distributions x 8 operations",
    "thorough": "compiled and differentiated for all kinds of noise; compiled in single precision too",
}
ASSUMPTIONS = [
    "the reference is the library itself on NumPy in double precision (which the other checks decide) and its central finite differences",
    "NumPy and JAX promote single to double precision inside a dependency (regularisation of Cholesky factorisations); precision has to be kept exactly in TensorFlow and PyTorch and never lowered anywhere",
    "missing data are selected at run time, so not compiled",
]

BACKENDS = ["numpy32", "autograd64", "tensorflow64", "tensorflow32", "torch64", "torch32", "jax64", "jax32"]
_fw = {}
_cache = None


def framework(name):
    """Import a framework in this worker (never in the parent, because it must not be forked)."""
    if name not in _fw:
        if name == "numpy":
            _fw[name] = None
        else:
            if name == "tensorflow":
                err = os.dup(2)
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 2)  # It reports on missing GPUs.
                tf = importlib.import_module("tensorflow")
                tf.config.threading.set_inter_op_parallelism_threads(1)
                tf.config.threading.set_intra_op_parallelism_threads(1)
                tf.get_logger().setLevel("ERROR")
                tf.constant(1.0)
                os.dup2(err, 2)
                os.close(err)
                os.close(null)
            importlib.import_module("stheno." + name)
            mod = importlib.import_module({"jax": "jax.numpy", "autograd": "autograd.numpy"}.get(name, name))
            if name == "torch":
                mod.set_num_threads(1)
            if name == "jax":
                # Share compiled operations between the workers.
                jax = importlib.import_module("jax")
                jax.config.update("jax_compilation_cache_dir", _cache)
                jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
                jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
            _fw[name] = mod
            boot.cache_dispatch()  # The import has added methods.
        if len(_fw) == 1:
            register()
            boot.cache_dispatch()
    return _fw[name]


class Draws(np.random.RandomState):
    """A random state whose draws are given, for any backend."""

    def __init__(self, bk=None, num=0):
        super().__init__(0)
        self.bk, self.used = bk, 0


def register():
    def given(state, dtype, shape):
        shape = tuple(int(s) for s in shape)  # Shapes are lazy while compiling.
        n = int(np.prod(shape)) if shape else 1
        z = np.cos(1.0 + 1.9 * np.arange(state.used, state.used + n)).reshape(shape)
        state.used += n
        return state, B.cast(dtype, state.bk.array(z))

    @B.dispatch(precedence=10)
    def randn(state: Draws, dtype: B.DType, *shape: B.Int):
        return given(state, dtype, shape)


class Backend:
    def __init__(self, name):
        self.name, self.bits = name[:-2], int(name[-2:])
        self.mod = framework(self.name)

    def array(self, a):
        a = np.array(a, np.float64 if self.bits == 64 else np.float32)
        if self.name == "numpy" or self.name == "autograd":
            return a
        if self.name == "tensorflow":
            return self.mod.constant(a)
        if self.name == "torch":
            return self.mod.tensor(a)
        return self.mod.asarray(a)

    def owns(self, a):
        if self.name in ("numpy", "autograd"):
            return isinstance(a, (np.ndarray, np.floating, float))
        if self.name == "tensorflow":
            return self.mod.is_tensor(a)
        if self.name == "torch":
            return isinstance(a, self.mod.Tensor)
        return isinstance(a, importlib.import_module("jax").Array)


def bits(a):
    s = str(getattr(a, "dtype", type(a)))
    return 64 if "float64" in s or s == "<class 'float'>" else 32 if "float32" in s else s


# -- models --------------------------------------------------------------------------------------------------
PARAMS = dict(
    x=np.array([0.31, -0.94, 1.57, 2.63]), t=np.array([0.83, -2.2, 3.1]), z=np.array([-0.7, 1.2]), y=np.array([0.7, -0.35, 1.25, -0.6]),
    noise=np.array(0.35), scale=np.array(1.4), length=np.array(0.9), slope=np.array(0.6),
)


def inputs(p, k):
    """Matrix inputs built from a vector of them."""
    x = p[k]
    return B.stack(x, B.cos(x + 0.3), axis=1)


def build(model, p, number=lambda a: a):
    """Returns (measure, process to observe, process to ask about, another one, dimension of the inputs)."""
    m = Measure()
    s, l, c = p["scale"], p["length"], p["slope"]
    f = GP(s * EQ().stretch(l), measure=m)
    if model == "zero mean":
        return m, f, f, f, 1
    if model == "mean":
        g = GP(lambda x: c * B.sin(x), Matern32().stretch(l) + c * Linear(), measure=m)
        return m, f + g, g, f, 1
    if model == "scalars":
        g = GP(number(1), Matern32(), measure=m)
        h = (f * s if type(s).__name__ == "ArrayBox" else s * f) - g * number(2) / l + c
        return m, h, h * number(-1) + number(1), g, 1
    if model == "function":
        h = f * (lambda x: 1 + c * x**2)
        return m, h, f, h, 1
    if model == "warps":
        h = f.shift(c).stretch(l).transform(lambda x: B.sin(x) + c * x)
        return m, f, h, h, 1
    if model == "product":
        g = GP(c, Matern32(), measure=m)
        return m, f, f * g, f * (f + g), 1
    if model == "2d":
        g = f.stretch(B.stack(l, s)).select(0)
        h = GP(lambda x: c * x[:, :1], EQ(), measure=m)
        return m, h.shift(B.stack(c, s)), h + GP(EQ(), measure=m).select(1), h, 2
    if model == "outputs":
        g = GP(c, Matern32(), measure=m) + f
        return m, g, cross(f, g), f, 1
    if model == "derivative":
        d = f.diff(0)
        return m, f, d, d, 2


MODELS = ["zero mean", "mean", "scalars", "function", "warps", "product", "2d", "outputs"]


def noise(kind, p):
    v = p["noise"]
    if kind == "number":
        return 0.35
    if kind == "scalar":
        return v
    if kind == "vector":
        return v * (1 + p["x"] ** 2)
    return v * (B.diag(1 + p["x"] ** 2) + 0.1 * B.exp(-((p["x"][:, None] - p["x"][None, :]) ** 2)))


METHODS = {"vfe": PseudoObs, "fitc": PseudoObsFITC, "dtc": PseudoObsDTC}


def compute(model, how, kind, p, state=None, numbers="all"):
    """All quantities as a dictionary."""
    # Numbers cannot be combined with some structured matrices in TensorFlow (in a dependency).
    number = lambda v: v if numbers == "all" else B.cast(B.dtype(p["x"]), v)
    m, o, h, other, d = build(model, p, (lambda v: v) if numbers else number)
    get = (lambda k: inputs(p, k)) if d == 2 and model != "derivative" else (lambda k: p[k][:, None]) if d == 2 else (lambda k: p[k])
    x, t, z, y = get("x"), get("t"), get("z"), p["y"]
    r = {}
    nz = noise(kind, p)
    nt = nz if kind in ("number", "scalar") else p["noise"]
    if how == "missing":
        y = B.concat(y[:1], B.cast(B.dtype(y), np.full(1, np.nan)), y[2:])
    if how in ("exact", "missing"):
        post = m | (o(x, nz), y)
        r["evidence"] = m.logpdf((o(x, nz), y))
        r["log-density"] = o(x, nz).logpdf(y)
    elif how in METHODS:
        obs = METHODS[how](o(z), o(x, nz), y)
        post = m | obs
        r["bound"] = obs.elbo(m)
    else:
        post = m
    hx = post(h)(t, nt)
    r["mean"], r["variance"], r["diagonal"] = hx.mean, hx.var, hx.var_diag
    r["cross-covariance"] = post.kernels[h, other](t, x)
    r["element-wise"] = post.kernels[other].elwise(t, t)
    r["marginal mean"], r["marginal variance"] = hx.marginals()
    _, r["lower"], r["upper"] = hx.marginal_credible_bounds()
    jm, jv = post(other)(t, nt).mean_var
    r["joint mean"], r["joint variance"] = jm, jv
    u = post(other)(t, nt)
    yt = B.cos(p["t"])
    r["log-density of posterior"] = u.logpdf(yt)
    r["log-densities"] = u.logpdf(B.stack(yt, B.sin(p["t"]), axis=1))
    r["entropy"] = u.entropy()
    r["second moment"] = u.m2
    q = Normal(B.sin(p["t"])[:, None], B.diag(1 + p["t"] ** 2))
    r["kl"], r["w2"] = u.kl(q), q.w2(Normal(u.mean, u.var))
    a = u * number(2) - q / number(3) + number(0.6) if numbers else u * p["scale"] + q / p["length"] + p["slope"]
    r["arithmetic: mean"], r["arithmetic: variance"] = a.mean, a.var
    if state is not None:
        r["sample"] = hx.sample(state)[1]
        r["noisy samples"] = post(other)(t).sample(state, 2, noise=0.2)[1]
        _, r["joint sample 1"], r["joint sample 2"] = post.sample(state, 2, post(h)(t, 0.2), post(other)(x, nz))
    return {k: B.dense(v) for k, v in r.items()}


def reference(model, how, kind, numbers="all"):
    return compute(model, how, kind, PARAMS, Draws(Backend("numpy64")), numbers)


def tolerance(bk):
    return 1e-6 if bk.bits == 64 else 2e-3


def check(cx, bk, got, want, what):
    for k in want:
        g = got[k]
        cx.check(bk.owns(g), lambda: f"{what}{k}: {type(g)} is not of the backend {bk.name}")
        b = bits(g)
        if bk.name in ("tensorflow", "torch") or bk.bits == 64:
            cx.check(b == bk.bits, lambda: f"{what}{k}: has {b} bits, expected {bk.bits}")
        else:
            cx.check(b in (32, 64), lambda: f"{what}{k}: has data type {b}")
        cx.close(B.to_numpy(g), want[k], f"{what}{k}", tolerance(bk))
    cx.state([np.asarray(want[k]) for k in want])


def choices(cx, backends, models, hows, kinds):
    bk = cx.pick(backends, "backend")
    model = cx.pick(models, "model")
    how = cx.pick(hows, "conditioning")
    kinds = [k for k in kinds if k != "matrix" or how in ("exact", "missing")]
    if cx.tier == "quick" and model != "mean":
        # Every kind of noise with every model and with every way of conditioning, but not all three combined.
        kinds = kinds[(models.index(model) + hows.index(how)) % len(kinds) :][:1]
    kind = cx.pick(kinds, "noise")
    if cx.probe:
        raise Prune()
    warnings.simplefilter("ignore")
    return Backend(bk), model, how, kind


HOWS = ["none", "exact", "missing", "vfe", "fitc", "dtc"]
KINDS = ["number", "scalar", "vector", "matrix"]


def eager(cx):
    bk, model, how, kind = choices(cx, BACKENDS, MODELS, HOWS, KINDS)
    p = {k: bk.array(v) for k, v in PARAMS.items()}
    want = reference(model, how, kind)
    got = compute(model, how, kind, p, Draws(bk), "model" if bk.name == "tensorflow" else "all")
    cx.step(len(got))
    check(cx, bk, got, want, "")


def compiled(cx):
    deep = cx.tier == "thorough"
    bk, model, how, kind = choices(cx, ["tensorflow64", "jax64", "torch64"] + (["tensorflow32", "torch32", "jax32"] if deep else []), MODELS, HOWS, KINDS if deep else ["vector"])
    if not deep and (sum(cx.choices) % 3) == 2:
        raise Prune()  # Every model and every way of conditioning with two of the three libraries.
    want = reference(model, how, kind, "")
    ks = list(PARAMS)
    names = []

    def f(*args):
        r = compute(model, how, kind, dict(zip(ks, args)), Draws(bk), "")
        names[:] = list(r)
        return tuple(r.values())

    args = [bk.array(PARAMS[k]) for k in ks]
    cx.step()
    if bk.name == "tensorflow":
        g = B.jit(f, autograph=False)
    elif bk.name == "torch":
        g = B.jit(f, check_trace=False)
    else:
        g = B.jit(f)
    # Compile at other values than those it is evaluated at.
    g(*[a + 0.01 for a in args])
    got = g(*args)
    check(cx, bk, dict(zip(names, got)), want, "compiled ")


def weighted(r):
    """A scalar that all quantities enter with different weights (samples included)."""
    s = 0
    for i, k in enumerate(sorted(r)):
        v = r[k]
        n = int(np.prod(B.shape(v))) if B.rank(v) else 1
        w = np.cos(1.3 * np.arange(n) + i).reshape(tuple(B.shape(v)))
        s = s + B.sum(v * B.cast(B.dtype(v), w)) if B.rank(v) else s + v * float(w)
    return s


# AutoGrad cannot differentiate log-determinants of matrices in the installed version.
NOT_AUTOGRAD = ["evidence", "log-density", "log-density of posterior", "log-densities", "entropy", "kl", "w2", "bound"]


def gradient(bk, f):
    """Value and gradients at the parameters."""
    args = [bk.array(v) for v in PARAMS.values()]
    if bk.name == "tensorflow":
        with bk.mod.GradientTape() as t:
            for a in args:
                t.watch(a)
            v = f(*args)
        return v, t.gradient(v, args)
    if bk.name == "torch":
        for a in args:
            a.requires_grad_(True)
        v = f(*args)
        return v.detach(), [None if g is None else g.detach() for g in bk.mod.autograd.grad(v, args, allow_unused=True)]
    if bk.name == "jax":
        return importlib.import_module("jax").value_and_grad(f, tuple(range(len(args))))(*args)
    return f(*args), importlib.import_module("autograd").grad(f, tuple(range(len(args))))(*args)


def differentiated(cx):
    deep = cx.tier == "thorough"
    _, model, how, kind = choices(cx, ["numpy64"], MODELS, HOWS, KINDS if deep else ["vector"])
    ref = Backend("numpy64")

    def value(bk, p, keys):
        r = compute(model, how, kind, p, Draws(bk), "")
        return [weighted({k: v for k, v in r.items() if k not in ks}) for ks in keys]

    # All quantities, and those that AutoGrad can differentiate.
    keys = [[], NOT_AUTOGRAD]
    v0 = value(ref, PARAMS, keys)
    # Central differences in all directions (or in one generic direction per parameter).
    fd, dirs = {}, {}
    e = 1e-5
    for k, v in PARAMS.items():
        n = int(np.prod(v.shape))
        dirs[k] = [d.reshape(v.shape) for d in (np.eye(n) if deep else np.cos(np.arange(n) * 1.9 + 0.4)[None])]
        fd[k] = np.array([(np.array(value(ref, {**PARAMS, k: v + e * d}, keys)) - np.array(value(ref, {**PARAMS, k: v - e * d}, keys))) / (2 * e) for d in dirs[k]])
        cx.step(2 * len(dirs[k]))
    for name in ["tensorflow64", "torch64", "jax64", "autograd64"]:
        bk = Backend(name)
        i = 1 if name == "autograd64" else 0
        v, grads = gradient(bk, lambda *a: value(bk, dict(zip(PARAMS, a)), keys[i : i + 1])[0])
        cx.step()
        cx.close(B.to_numpy(v), v0[i], f"{name}: value")
        for k, g in zip(PARAMS, grads):
            g = np.zeros(np.shape(PARAMS[k])) if g is None else np.asarray(B.to_numpy(g))
            cx.check(g.shape == np.shape(PARAMS[k]), f"{name}: shape of derivative with respect to {k} is {g.shape}")
            cx.close(np.array([np.sum(g * d) for d in dirs[k]]), fd[k][:, i], f"{name}: derivative with respect to {k}", 1e-4)
    cx.state([np.round(fd[k], 2) for k in fd])


def states(cx):
    """Samples with the random states of the backends."""
    name = cx.pick(BACKENDS, "backend")
    how = cx.pick(["none", "exact"], "conditioning")
    use = cx.pick(["distribution", "measure", "normal"], "sample of")
    if cx.probe:
        raise Prune()
    bk = Backend(name)
    p = {k: bk.array(v) for k, v in PARAMS.items()}
    m, o, h, other, d = build("mean", p)
    q = m | (o(p["x"], 0.35), p["y"]) if how == "exact" else m
    dist = q(h)(p["t"], 0.1)

    def draw(*state):
        if use == "distribution":
            return dist.sample(*state, 2)
        if use == "normal":
            return Normal(dist.mean, dist.var).sample(*state, 2)
        r = q.sample(*state, 2, dist, q(other)(p["x"]))
        return (r[0], B.concat(*r[1:], axis=0)) if state else B.concat(*r, axis=0)

    dt = B.dtype(p["t"])
    n = 7 if use == "measure" else 3
    s1, a = draw(B.create_random_state(dt, seed=3))
    s1, b = draw(s1)
    s2, a2 = draw(B.create_random_state(dt, seed=3))
    s2, b2 = draw(s2)
    B.set_random_seed(5)
    c = draw()
    draw(B.create_random_state(dt, seed=8))
    e = draw()
    B.set_random_seed(5)
    c2, e2 = draw(), draw()
    cx.step(9)
    for what, v in dict(a=a, b=b, c=c, e=e).items():
        cx.check(bk.owns(v), f"sample is {type(v)}")
        if bk.name in ("tensorflow", "torch") or bk.bits == 64:
            cx.check(bits(v) == bk.bits, f"sample has {bits(v)} bits")
        cx.check(tuple(B.shape(v)) == (n, 2), f"shape {B.shape(v)}")
    N = lambda v: np.asarray(B.to_numpy(v))
    for v, w, msg in [(a, a2, "first samples"), (b, b2, "second samples"), (c, c2, "first global samples"), (e, e2, "second global samples")]:
        cx.check(np.array_equal(N(v), N(w)), f"{msg} of equal random states differ")
    for v, w in [(a, b), (c, e), (a, c)]:
        cx.check(not np.any(np.isclose(N(v), N(w))), "consecutive samples are equal")
    cx.state([name, how, use])


def harnesses(tier):
    global _cache
    if _cache is None:
        _cache = tempfile.mkdtemp(prefix="c16jax")
        atexit.register(shutil.rmtree, _cache, True)
    h = {"eager": eager, "compiled": compiled, "differentiated": differentiated, "states": states}
    ops, noises, kernels, means = (list(d) for d in (integers.OPS, integers.NOISES, integers.KERNELS, integers.MEANS))
    if tier == "thorough":
        h["integers"] = integers.processes(noises, ops, kernels, means, ["views", "exact", "missing", "vfe", "fitc", "dtc"])
    else:
        h["integers"] = integers.processes(noises, ops, kernels, means, ["views"])
        h["integers-conditioned"] = integers.processes(noises, ["p", "0.5*p", "x*p", "cross"], ["EQ", "Linear+Delta"], ["none", "halves"], ["exact", "missing", "vfe", "fitc", "dtc"])
    h["integers-normals"] = integers.normals
    return h
