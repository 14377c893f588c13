"""Import stheno from /repo's working tree (never from an installed copy), quietly and deterministically."""
import os
import sys

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

if not os.path.exists(os.path.join(REPO, "stheno", "_version.py")):
    # `stheno/_version.py` is generated by the build and ignored by git.  Do not write into the repository.
    import types

    v = types.ModuleType("stheno._version")
    v.version = v.__version__ = "0"
    sys.modules["stheno._version"] = v

import warnings  # noqa: E402

warnings.simplefilter("ignore")
import stheno  # noqa: E402

assert os.path.realpath(os.path.dirname(stheno.__file__)) == os.path.realpath(os.path.join(REPO, "stheno")), stheno.__file__

# -- speed only ----------------------------------------------------------------------------------------------
# `plum` does not cache the dispatch of functions with methods for parametric classes (`PosteriorKernel[...]`),
# because it cannot know that the instance checks of their metaclass depend on the type of the instance only.
# They do, so caching by type gives the same method; functions with any other unusual types are left alone.
import inspect as _inspect  # noqa: E402

import mlkernels as _mk  # noqa: E402
import plum._parametric as _pp  # noqa: E402
import wbml.warning as _ww  # noqa: E402
from plum._type import is_faithful as _is_faithful, resolve_type_hint as _resolve  # noqa: E402


def _cacheable(t):
    t = _resolve(t)
    return _is_faithful(t) or isinstance(t, _pp.CovariantMeta)


# `plum.convert` and `plum.promote` look the method up and wrap it anew for every call, and resolve type hints anew;
# the results depend on the types only, until a method is added or a library is imported.
class _CachedInvoke:
    def __init__(self, f):
        self._f, self._cache = f, {}

    def invoke(self, *types):
        try:
            return self._cache[types]
        except KeyError:
            self._cache[types] = r = self._f.invoke(*types)
            return r
        except TypeError:
            return self._f.invoke(*types)

    def dispatch(self, *args, **kw_args):
        self._cache.clear()
        return self._f.dispatch(*args, **kw_args)

    def __getattr__(self, name):
        return getattr(self._f, name)


_HINTS = {}


def _resolve_cached(x):
    try:
        return _HINTS[x]
    except KeyError:
        _HINTS[x] = r = _resolve(x)
        return r
    except TypeError:
        return _resolve(x)


def cache_dispatch():
    import plum._promotion as pr

    _HINTS.clear()
    pr.resolve_type_hint = _resolve_cached
    for name in ("_convert", "_promotion_rule"):
        f = getattr(pr, name)
        setattr(pr, name, _CachedInvoke(f._f if isinstance(f, _CachedInvoke) else f))
    for d in (_mk._dispatch, stheno._dispatch):
        for f in d.functions.values():
            try:
                if f._pending:
                    f._resolve_pending_registrations()
                r = f._resolver
                if r.is_faithful:
                    continue
                ts = [t for m in r.methods for t in m.signature.types + ((m.signature.varargs,) if m.signature.has_varargs else ())]
                if all(_cacheable(t) for t in ts):
                    r.is_faithful = True
            except Exception:
                pass


try:
    cache_dispatch()
except Exception:
    pass


# `warn_upmodule` collects the whole stack with source lines (milliseconds) to find out where to point its warning;
# warnings are off here.
class _FastInspect:
    @staticmethod
    def stack():
        f, out = _inspect.currentframe().f_back, []
        while f is not None and len(out) < 3:
            out.append(_inspect.FrameInfo(f, "", 0, "", None, None))
            f = f.f_back
        return out


_ww.inspect = _FastInspect
