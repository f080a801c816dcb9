"""The simulator core: one `Sim` per simulated run.

A run is a single process executing the real package. Everything the run could get from outside
(random numbers, clocks, the process pool, files, HDF5 files, interrupts, plot rendering) goes
through this object, which decides it from the case's seed and logs it. The log's hash identifies
the execution; running the same case again must give the same hash."""
import collections
import gc
import hashlib
import os
import pickle
import random
import sys
import traceback

import numpy as np


class Violation(Exception):
    """The property is broken. `sig` is stable across runs of the same defect (used when
    minimising); `msg` says what was seen."""

    def __init__(self, sig, msg):
        Exception.__init__(self, "%s: %s" % (sig, msg))
        self.sig, self.msg = sig, msg


class SimCrash(BaseException):
    """The simulated process (or machine) died here."""


class Injected(object):
    """Mixin marking exceptions raised by the simulator."""


class InjectedError(RuntimeError, Injected):
    pass


class InjectedMemoryError(MemoryError, Injected):
    pass


class InjectedInterrupt(KeyboardInterrupt, Injected):
    pass


class InjectedOSError(OSError, Injected):
    pass


def _injected(base):
    return type("Injected" + base.__name__, (base, Injected), {"__module__": __name__})


OTHER = {}
for _b in (ValueError, ZeroDivisionError, FloatingPointError, OverflowError, IndexError, KeyError, TypeError, AttributeError,
           AssertionError, NotImplementedError, np.linalg.LinAlgError):
    _c = _injected(_b)
    OTHER[_b.__name__] = _c
    globals()[_c.__name__] = _c
del _b, _c

EXC = {"RuntimeError": lambda: InjectedError("injected failure"),
       "MemoryError": lambda: InjectedMemoryError("injected"),
       "KeyboardInterrupt": lambda: InjectedInterrupt(),
       "Crash": lambda: SimCrash("process died")}
EXC.update({k: (lambda c: lambda: c("injected failure"))(v) for k, v in OTHER.items()})


def is_injected(e):
    """Is `e` (or what it was raised from) an injected fault?"""
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, (Injected, SimCrash)):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def digest(x):
    """Short stable hash of a result (arrays, containers, scalars, plain objects)."""
    h = hashlib.sha256()
    _feed(h, x, 0)
    return h.hexdigest()[:16]


def _feed(h, x, depth):
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            h.update(b"O" + repr(x.shape).encode())
            for v in x.ravel():
                _feed(h, v, depth + 1)
        else:
            h.update(("A%s%s" % (x.dtype.str, x.shape)).encode())
            h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, dict):
        h.update(b"D")
        for k in sorted(x, key=repr):
            _feed(h, k, depth + 1)
            _feed(h, x[k], depth + 1)
    elif isinstance(x, (list, tuple)):
        h.update(b"L%d" % len(x))
        for v in x:
            _feed(h, v, depth + 1)
    elif isinstance(x, (float, np.floating)):
        h.update(np.float64(x).tobytes())
    else:
        h.update(repr(x).encode("utf8", "replace"))


def same(a, b, rtol=1e-9, atol=0.):
    """Equal numerically (arrays, scalars, containers, None). NaN equals NaN."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a, key=repr) == sorted(b, key=repr) and \
            all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, (str, bytes, bool)) or isinstance(b, (str, bytes, bool)):
        return a == b
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)) or \
            getattr(a, "dtype", None) == object or getattr(b, "dtype", None) == object:
        try:
            return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
        except TypeError:
            return False
    try:
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    except (TypeError, ValueError):
        return a == b
    if a.shape != b.shape:
        return False
    m = max(np.nanmax(np.abs(b), initial=0.), 0.) if b.size else 0.
    if not np.isfinite(m):
        m = 0.
    return bool(np.allclose(a, b, rtol=rtol, atol=max(atol, rtol * m * 1e-3), equal_nan=True))


def plain(x, depth=0, seen=None):
    """Deep plain-data copy of an object graph: what a caller could see of it."""
    if seen is None:
        seen = set()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ["objarr"] + [plain(v, depth + 1, seen) for v in x.ravel()]
        return np.array(x)
    if isinstance(x, np.generic):
        return x.item()
    if x is None or isinstance(x, (bool, int, float, str, bytes, complex)):
        return x
    if isinstance(x, dict):
        return {str(k): plain(v, depth + 1, seen) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v, depth + 1, seen) for v in x]
    if isinstance(x, (set, frozenset)):
        return sorted(repr(v) for v in x)
    if isinstance(x, np.ma.MaskedArray):
        return ["ma", plain(np.asarray(x.filled(np.nan)), depth + 1, seen)]
    if id(x) in seen or depth > 12:
        return "<%s>" % type(x).__name__
    d = getattr(x, "__dict__", None)
    if d is None or isinstance(x, type) or callable(x):
        return "<%s>" % type(x).__name__
    seen = seen | {id(x)}
    return {"__class__": type(x).__name__, **{k: plain(v, depth + 1, seen) for k, v in d.items()}}


def diff(a, b, path="", rtol=0.):
    """First difference of two `plain` values, as text (None if equal)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray) or not isinstance(b, np.ndarray) or a.shape != b.shape:
            return "%s: shape %s, was %s" % (path, getattr(a, "shape", a), getattr(b, "shape", b))
        if a.dtype.kind in "fc" or b.dtype.kind in "fc":
            if rtol:
                ok = same(a, b, rtol)
            else:
                ok = np.array_equal(a, b, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        return None if ok else "%s: array changed (max |diff| %s)" % (
            path, np.nanmax(np.abs(np.asarray(a, float) - np.asarray(b, float))) if a.size else 0)
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return "%s: %.60r, was %.60r" % (path, a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: %s" % (path, k, "missing" if k not in a else "new")
            r = diff(a[k], b[k], "%s.%s" % (path, k), rtol)
            if r:
                return r
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return "%s: length %d, was %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, "%s[%d]" % (path, i), rtol)
            if r:
                return r
        return None
    if isinstance(a, float) or isinstance(b, float):
        if a == b or (a != a and b != b) or (rtol and abs(a - b) <= rtol * max(abs(a), abs(b))):
            return None
        return "%s: %r, was %r" % (path, a, b)
    return None if a == b else "%s: %.60r, was %.60r" % (path, a, b)


def sub_rng(seed, *names):
    return random.Random(hashlib.sha256(("%s:%s" % (seed, ":".join(map(str, names)))).encode()).digest())


class Sim(object):
    def __init__(self, case, scratch):
        self.case = case
        self.dir = scratch
        self.seed = case["seed"]
        self.rng = sub_rng(self.seed, "schedule")
        self._hash = hashlib.sha256()
        self.tail = collections.deque(maxlen=60)
        self.nevents = 0
        self.counts = collections.Counter()      # points passed, per kind
        self.fired = []                          # faults that took effect
        self.stats = collections.Counter()       # anything worth reporting
        self.states = set()                      # distinct states reached (stated measure)
        self.armed = []                          # faults waiting for their point
        self.clock_t0 = self.clock_t = 1.6e9
        self.quiet = 0
        self.crashed = False
        self._undo = []
        self.on_point = None                     # called at every point (may run other work there)

    # ---- log
    def event(self, kind, *data):
        if self.quiet:
            return
        s = "%s %s" % (kind, " ".join(str(d) for d in data))
        self._hash.update(s.encode("utf8", "replace") + b"\n")
        self.tail.append(s)
        self.nevents += 1

    def hash(self):
        return self._hash.hexdigest()[:24]

    # ---- points: places where a fault can be injected
    def point(self, kind, *detail):
        if self.crashed:
            raise SimCrash("still dead")
        n = self.counts[kind]
        self.counts[kind] = n + 1
        if kind != "line":
            self.event(kind, *detail)
            if self.on_point is not None:
                self.on_point(kind)
        for f in list(self.armed):
            if f["kind"] == kind and f["n"] == n:
                self.armed.remove(f)
                return self.fire(f, *detail)
        return None

    def fire(self, f, *detail):
        self.fired.append(dict(f, at=[str(d) for d in detail]))
        self.stats["fault:%s:%s" % (f["kind"], f.get("exc") or f.get("act") or f.get("err"))] += 1
        self.event("FAULT", f["kind"], f["n"], f.get("exc"), f.get("act"), f.get("err"), *detail)
        if f.get("exc") == "Crash":
            self.crashed = True
        if f.get("exc"):
            raise EXC[f["exc"]]()
        return f

    def arm(self, kind, n, **kw):
        f = dict(kw, kind=kind, n=self.counts[kind] + n)
        self.armed.append(f)
        return f

    def disarm(self):
        self.armed = []
        self.crashed = False

    # ---- patches
    def patch(self, obj, name, new):
        old = getattr(obj, name)
        self._undo.append((obj, name, old))
        setattr(obj, name, new)
        return old

    def replace(self, pkg, old, new):
        """Replace every module attribute of the package that is (or equals) `old`."""
        for mn, m in list(sys.modules.items()):
            if m is None or not (mn == pkg or mn.startswith(pkg + ".")):
                continue
            for k, v in list(vars(m).items()):
                if v is old or (callable(old) and type(v) is type(old) and v == old):
                    self.patch(m, k, new)

    def restore(self):
        while self._undo:
            obj, name, old = self._undo.pop()
            setattr(obj, name, old)

    # ---- checks
    def check(self, ok, sig, msg=""):
        self.stats["checks"] += 1
        if not ok:
            raise Violation(sig, msg if isinstance(msg, str) else msg())

    def sut(self, fn, *a, **k):
        """Call the package where it has to succeed."""
        try:
            return fn(*a, **k)
        except (Violation, SimCrash):
            raise
        except BaseException as e:
            raise Violation("unexpected-error", "%s: %s\n%s" % (
                type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-4:])))

    def attempt(self, fn, *a, **k):
        """Call the package where a fault may surface: (value, None) or (None, exception)."""
        try:
            return fn(*a, **k), None
        except Violation:
            raise
        except BaseException as e:
            return None, e

    def isolated(self, fn, *a, **k):
        """Run fn in a forked copy of this process and return its (picklable) result: an oracle run
        that sees none of the state this run builds up later, and leaves none behind."""
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                import resource
                try:
                    out = ("ok", fn(*a, **k))
                except Violation as e:
                    out = ("violation", (e.sig, e.msg))
                except BaseException as e:
                    out = ("error", "%s: %s\n%s" % (type(e).__name__, e,
                                                    "".join(traceback.format_tb(e.__traceback__)[-5:])))
                data = pickle.dumps(out)
                self.real_write(w, data)
            except BaseException:
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        chunks = []
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
        os.close(r)
        os.waitpid(pid, 0)
        if not chunks:
            raise Violation("no-progress", "a fault-free run of the package died or overran its limits")
        kind, val = pickle.loads(b"".join(chunks))
        if kind == "ok":
            return val
        if kind == "violation":
            raise Violation(*val)
        raise Violation("unexpected-error", val)

    _oswrite = staticmethod(os.write)

    def real_write(self, fd, data):
        mv = memoryview(data)
        while mv:
            n = self._oswrite(fd, mv)
            mv = mv[n:]


def collect():
    for _ in range(2):
        gc.collect()
