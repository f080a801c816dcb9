"""Process setup: must be imported before numpy. One BLAS thread, no bytecode, no display, the
package under test taken from /repo's working tree (MISFIT_REPO overrides it for experiments)."""
import os
import sys

for _k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMBA_NUM_THREADS",
           "NUMEXPR_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("MPLCONFIGDIR", "/tmp/.vp-mpl-%d" % os.getuid())
os.environ["HDF5_USE_FILE_LOCKING"] = "FALSE"
sys.dont_write_bytecode = True

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("MISFIT_REPO", "/repo"))
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)
PKG = os.path.join(REPO, "misfit") + os.sep

import warnings  # noqa: E402
warnings.filterwarnings("ignore")

import numpy as np  # noqa: E402
np.seterr(all="ignore")


def load():
    """Import the package under test; returns the module."""
    import misfit
    import misfit.fit
    import misfit.fit.fit1D
    import misfit.fit.fit2D
    import misfit.fit.fit_core
    import misfit.mock
    import misfit.plot
    import misfit.model
    import misfit.instrument
    import misfit.galaxy
    assert os.path.realpath(misfit.__file__).startswith(PKG), misfit.__file__
    warnings.filterwarnings("ignore")
    np.seterr(all="ignore")
    return misfit


def pristine(fn, *a):
    """Run fn, then put the package's own state back: what it keeps in modules, classes, functions and caches is as after
    importing it. (Compiled code stays.)"""
    import copy
    import types

    def owners():
        seen, out = set(), []

        def visit(o):
            if id(o) in seen:
                return
            seen.add(id(o))
            out.append(o)
            for v in list(vars(o).values()):
                f = v.__func__ if isinstance(v, (staticmethod, classmethod)) else v.fget if isinstance(v, property) else v
                if isinstance(f, (type, types.FunctionType)) and str(getattr(f, "__module__", "")).split(".")[0] == "misfit":
                    visit(f)
        for n, m in list(sys.modules.items()):
            if n.split(".")[0] == "misfit" and isinstance(m, types.ModuleType):
                visit(m)
        return out

    def kept(v):
        """A copy of what can be changed in place, else the thing itself."""
        return copy.deepcopy(v) if isinstance(v, (dict, list, set, bytearray, np.ndarray)) else v
    before = []
    for o in owners():
        mine = {}
        for k, v in vars(o).items():
            if k.startswith("__"):
                continue
            try:
                mine[k] = (v, kept(v))
            except Exception:
                mine[k] = (v, v)
        d = getattr(o, "__defaults__", None), copy.copy(getattr(o, "__kwdefaults__", None))
        try:
            d = d + (kept(list(d[0])) if d[0] else None,)
        except Exception:
            d = d + (None,)
        before.append((o, mine, d))
    try:
        return fn(*a)
    finally:
        for o, mine, d in before:
            for k in [k for k in vars(o) if not k.startswith("__") and k not in mine]:
                if not isinstance(vars(o)[k], types.ModuleType):
                    delattr(o, k)
            for k, (v, c) in mine.items():
                if c is not v:             # the same container with its earlier contents
                    if isinstance(v, np.ndarray):
                        v[...] = c
                    elif isinstance(v, (list, bytearray)):
                        v[:] = c
                    else:
                        v.clear()
                        v.update(c)
                if vars(o).get(k) is not v:
                    setattr(o, k, v)
                if hasattr(v, "cache_clear"):
                    v.cache_clear()
            if d[2] is not None:
                for x, c in zip(d[0], d[2]):
                    if c is not x and isinstance(x, (dict, list, set)):
                        x.clear()
                        (x.extend if isinstance(x, list) else x.update)(c)
