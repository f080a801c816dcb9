"""The seams: process pool, clocks, CPU count, files, HDF5 files, plot rendering, line-level
interrupts. Nothing in the package is edited; each seam replaces what the package gets from outside."""
import builtins
import collections
import datetime as _dt
import ast
import dis
import errno
import functools
import io
import math
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import random
import shutil
import sys
import tempfile
import time as _time
import types
import weakref
from importlib.machinery import SourceFileLoader

import numpy as np

from .core import (Sim, SimCrash, InjectedOSError, InjectedInterrupt, InjectedMemoryError, InjectedError, EXC,
                   sub_rng, is_injected)
from . import boot

REAL = dict(open=builtins.open, os_open=os.open, os_close=os.close, os_write=os.write, fsync=os.fsync,
            fdatasync=os.fdatasync, replace=os.replace, rename=os.rename, remove=os.remove, unlink=os.unlink,
            link=os.link, symlink=os.symlink, truncate=os.truncate, ftruncate=os.ftruncate, time=_time.time)


# ----------------------------------------------------------------------------------------- pool
class SimResult(object):
    def __init__(self, run):
        self._run, self._done, self._val, self._exc = run, False, None, None

    def _force(self):
        if not self._done:
            self._done = True
            try:
                self._val = self._run()
            except Exception as e:
                self._exc = e

    def get(self, timeout=None):
        self._force()
        if self._exc is not None:
            raise self._exc
        return self._val

    def wait(self, timeout=None):
        self._force()

    def ready(self):
        self._force()
        return True

    def successful(self):
        self._force()
        return self._exc is None


class SimPool(object):
    """multiprocessing.Pool with simulated workers. Tasks and results are pickled as in reality; the
    seeded scheduler picks which worker takes which chunk and the order in which chunks finish; each
    worker has its own copies of the global random number generators, from which it draws privately."""
    sim = None
    live = None      # weak set of pools not yet closed/terminated

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        sim = self.sim
        self._state = "RUN"
        if processes is None:
            processes = sim.cpus
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        sim.point("pool", "start", processes)
        self._processes = processes
        self._rng = sub_rng(sim.seed, "pool", sim.counts["pool"], sim.case.get("sched", 0))
        self._np, self._py = [], []
        st, pst = np.random.get_state(), random.getstate()
        for i in range(processes):
            self._np.append(st)
            self._py.append(pst)
        SimPool.live.add(self)
        self.where = sim.counts["line"]
        sim.stats["pools"] += 1
        sim.stats["workers"] += processes
        if initializer is not None:
            for i in range(processes):
                self._in_worker(i, lambda: initializer(*initargs))

    def _in_worker(self, i, fn):
        sim = self.sim
        keep, pkeep = np.random.get_state(), random.getstate()
        np.random.set_state(self._np[i])
        random.setstate(self._py[i])
        for _ in range(self._rng.randrange(3)):      # private consumption of random numbers
            np.random.random_sample()
            random.random()
        sim.in_worker = i + 1
        old = sys.gettrace()
        sys.settrace(None)
        try:
            return fn()
        finally:
            sys.settrace(old)
            sim.in_worker = 0
            self._np[i], self._py[i] = np.random.get_state(), random.getstate()
            np.random.set_state(keep)
            random.setstate(pkeep)

    def _check(self):
        if self._state != "RUN":
            raise ValueError("Pool not running")

    def _chunks(self, func, items, star, chunksize):
        n = len(items)
        if chunksize is None:
            chunksize, extra = divmod(n, self._processes * 4)
            chunksize += bool(extra)
        chunksize = max(1, int(chunksize or 1))
        return [pickle.dumps((func, items[i:i + chunksize], star)) for i in range(0, n, chunksize)]

    def _order(self, n):
        """The seeded schedule: [(chunk, worker)] in completion order."""
        rng, sim = self._rng, self.sim
        mode = rng.choice(["fifo", "lifo", "random", "random", "one-slow"])
        idx = list(range(n))
        if mode == "lifo":
            idx.reverse()
        elif mode == "random":
            rng.shuffle(idx)
        elif mode == "one-slow" and n > 1:
            s = rng.randrange(n)
            idx.remove(s)
            idx.append(s)
        plan = [(i, rng.randrange(self._processes)) for i in idx]
        sim.stats["chunks"] += n
        sim.event("sched", mode, plan)
        sim.states.add(("sched", tuple(plan)))
        return plan

    def _run_chunks(self, chunks):
        """Yield (index, results) in completion order."""
        sim = self.sim
        for i, w in self._order(len(chunks)):
            f = sim.point("chunk", i, w)
            sim.clock_t += self._rng.random() * .5
            func, items, star = pickle.loads(chunks[i])
            def go():
                out = [func(*x) if star else func(x) for x in items]
                return pickle.dumps(out)
            if f is not None and f.get("act") == "encode":
                raise multiprocessing.pool.MaybeEncodingError(InjectedError("injected"), "result")
            yield i, pickle.loads(self._in_worker(w, go))

    def _map(self, func, iterable, star=False, chunksize=None):
        self._check()
        self.sim.point("pool", "map")
        chunks = self._chunks(func, list(iterable), star, chunksize)
        out = [None] * len(chunks)
        err = None
        for i, r in self._run_chunks(chunks):
            out[i] = r
        return [x for r in out for x in r]

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(func, iterable, True, chunksize)

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return SimResult(lambda: self._map(func, iterable, False, chunksize))

    def starmap_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        self._check()
        return SimResult(lambda: self._map(func, iterable, True, chunksize))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def apply_async(self, func, args=(), kwds={}, callback=None, error_callback=None):
        self._check()
        return SimResult(lambda: self._map(functools.partial(func, *args, **kwds), [()], True)[0])

    def imap(self, func, iterable, chunksize=1):
        return iter(self._map(func, iterable, False, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        self._check()
        chunks = self._chunks(func, list(iterable), False, chunksize)
        return iter([x for i, r in self._run_chunks(chunks) for x in r])

    def close(self):
        self.sim.event("pool", "close")
        if self._state == "RUN":
            self._state = "CLOSE"
        SimPool.live.discard(self)

    def terminate(self):
        self.sim.event("pool", "terminate")
        self._state = "TERMINATE"
        SimPool.live.discard(self)

    def join(self):
        if self._state == "RUN":
            raise ValueError("Pool is still running")

    def __enter__(self):
        self._check()
        return self

    def __exit__(self, *a):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError("pool objects cannot be passed between processes or pickled")


class SimExecutor(SimPool):
    """concurrent.futures.ProcessPoolExecutor over the same simulated workers."""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **k):
        SimPool.__init__(self, max_workers, initializer, initargs)
        self._max_workers = self._processes

    def map(self, fn, *its, timeout=None, chunksize=1):
        return iter(self._map(fn, list(zip(*its)), True, chunksize))

    def submit(self, fn, *args, **kw):
        import concurrent.futures
        fut = concurrent.futures.Future()
        try:
            fut.set_result(self.apply(fn, args, kw))
        except Exception as e:
            fut.set_exception(e)
        return fut

    def shutdown(self, wait=True, cancel_futures=False):
        self.close()


def install_pool(sim):
    import concurrent.futures
    import concurrent.futures.process
    SimPool.sim = sim
    SimPool.live = weakref.WeakSet()
    sim.in_worker = 0
    real = multiprocessing.Pool
    cls = multiprocessing.pool.Pool
    def factory(*a, **k):
        return SimPool(*a, **k)
    def method(self, *a, **k):
        return SimPool(*a, **k)
    ex = concurrent.futures.process.ProcessPoolExecutor
    sim.replace("misfit", real, factory)
    sim.replace("misfit", cls, SimPool)
    sim.replace("misfit", ex, SimExecutor)
    sim.patch(multiprocessing, "Pool", factory)
    sim.patch(multiprocessing.pool, "Pool", SimPool)
    sim.patch(multiprocessing.context.BaseContext, "Pool", method)
    sim.patch(concurrent.futures.process, "ProcessPoolExecutor", SimExecutor)
    sim.patch(concurrent.futures, "ProcessPoolExecutor", SimExecutor)
    sim.cpus = sim.case.get("cpus", 4)
    import psutil
    sim.patch(psutil, "cpu_count", lambda logical=True: sim.cpus)
    sim.patch(os, "cpu_count", lambda: sim.cpus)
    sim.patch(multiprocessing, "cpu_count", lambda: sim.cpus)


# ---------------------------------------------------------------------------------------- clocks
def install_clock(sim):
    rng = sub_rng(sim.seed, "clock", sim.case.get("clock", 0))
    jumps = sim.case.get("clock_jumps", [])
    sim.clock_reads = 0
    scale = rng.choice([2., 2., 1e-4, 1e-2, .3, 60., 0.])      # how much time passes between two readings

    def tick():
        sim.clock_reads += 1
        sim.clock_t += rng.random() * scale
        for at, dt in jumps:
            if at == sim.clock_reads:
                sim.clock_t += dt
                sim.stats["fault:clock:jump"] += 1
                sim.fired.append({"kind": "clock", "at": at, "jump": dt})
        return sim.clock_t

    def sleep(s):
        sim.clock_t += max(s, 0)

    mod = types.ModuleType("time")
    mod.__dict__.update({k: v for k, v in vars(_time).items() if not k.startswith("__")})
    for k in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(mod, k, tick)
    for k in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(mod, k, lambda: int(tick() * 1e9))
    mod.sleep = sleep
    mod.ctime = lambda s=None: _time.ctime(tick() if s is None else s)
    mod.localtime = lambda s=None: _time.localtime(tick() if s is None else s)
    mod.gmtime = lambda s=None: _time.gmtime(tick() if s is None else s)
    mod.strftime = lambda f, t=None: _time.strftime(f, _time.gmtime(tick()) if t is None else t)

    class SimDateTime(_dt.datetime):
        @classmethod
        def now(cls, tz=None):
            return _dt.datetime.fromtimestamp(tick(), tz)

        @classmethod
        def utcnow(cls):
            return _dt.datetime.utcfromtimestamp(tick())

        @classmethod
        def today(cls):
            return _dt.datetime.fromtimestamp(tick())

    dmod = types.ModuleType("datetime")
    dmod.__dict__.update({k: v for k, v in vars(_dt).items() if not k.startswith("__")})
    dmod.datetime = SimDateTime
    sim.replace("misfit", _time, mod)
    sim.replace("misfit", _dt, dmod)
    sim.replace("misfit", _dt.datetime, SimDateTime)
    for k in ("time", "monotonic", "perf_counter", "sleep", "ctime", "localtime", "strftime"):
        sim.replace("misfit", getattr(_time, k), getattr(mod, k))


# ------------------------------------------------------------------------------------------ files
ERR = {"ENOSPC": errno.ENOSPC, "EIO": errno.EIO, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE,
       "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT}


class Inode(object):
    __slots__ = ("durable", "dirty", "fd")

    def __init__(self, durable):
        self.durable, self.dirty = durable, False


class SimFileIO(io.FileIO):
    fs = None
    rel = None

    def write(self, b):
        n = self.fs.on_write(self, memoryview(b).cast("B"))
        return n

    def truncate(self, size=None):
        self.fs.op("truncate", self.rel, fd=self.fileno())
        return io.FileIO.truncate(self, size)

    def close(self):
        if not self.closed:
            self.fs.on_close(self)
        io.FileIO.close(self)


class SimFS(object):
    """Files under the run's scratch directory. The directory itself is what other processes see (the
    page cache); `inodes` holds what has reached the disk, `journal` the directory changes in order."""

    def __init__(self, sim, root):
        self.sim, self.root = sim, os.path.realpath(root)
        self.inodes = {}          # rel -> Inode, as currently visible
        self.base = {}            # rel -> Inode at the last full sync
        self.journal = []         # (op, args) since then
        self.forced = 0
        self.open_files = weakref.WeakSet()
        self.fds = {}             # raw fds from os.open: fd -> rel
        self.full = False
        self.watch = None         # called after every op (visible state changed)
        self.rng = sub_rng(sim.seed, "fs", sim.case.get("fsmode", 0))
        self.tick = sub_rng(sim.seed, "mtime").choice([1000, 10 ** 6, 10 ** 9, 10 ** 9, 2 * 10 ** 9])   # of file times (ns)

    # -- helpers
    def relpath(self, path):
        if isinstance(path, int):
            return self.fds.get(path)
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p.startswith(self.root + os.sep):
            return p[len(self.root) + 1:]
        if p == self.root:
            return "."
        q = os.path.realpath(p)
        if q.startswith(self.root + os.sep):
            return q[len(self.root) + 1:]
        return None

    def path(self, rel):
        return os.path.join(self.root, rel)

    def content(self, rel):
        with REAL["open"](self.path(rel), "rb") as f:
            return f.read()

    def sync_all(self):
        """Everything visible now is on disk (start of a run)."""
        self.inodes = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), self.root)
                self.inodes[rel] = Inode(self.content(rel))
        self.base = dict(self.inodes)
        self.journal, self.forced = [], 0

    def inode(self, rel):
        if rel not in self.inodes:
            self.inodes[rel] = Inode(self.content(rel) if os.path.exists(self.path(rel)) else None)
        return self.inodes[rel]

    # -- every operation passes here: may fail, may be the last thing the process does
    def op(self, name, rel, fd=None, size=0):
        sim = self.sim
        if self.watch is not None and not sim.crashed:
            self.watch("before " + name)
        f = sim.point("fs", name, self._tag(rel))
        if f is not None:
            if f.get("act") == "full":
                self.full = True
            elif f.get("err") and not f.get("short"):
                raise InjectedOSError(ERR[f["err"]], os.strerror(ERR[f["err"]]), self.path(rel))
        if self.full and (name in ("write",) or (name == "open-create" and self.rng.random() < .3)):
            raise InjectedOSError(errno.ENOSPC, os.strerror(errno.ENOSPC), self.path(rel))
        return f

    def _tag(self, rel):
        return rel.replace(str(os.getpid()), "PID")

    def after(self):
        if self.watch is not None:
            self.watch("after")

    def stamp(self, f):
        """File times come from the simulated clock."""
        t = int(self.sim.clock_t * 1e9) // self.tick * self.tick
        os.utime(f.fileno(), ns=(t, t))

    def on_write(self, f, data):
        sim = self.sim
        if sim.crashed:
            return len(data)            # the process is dead: nothing reaches the kernel
        n = len(data)
        self.inode(f.rel).dirty = True
        spec = None
        try:
            spec = self.op("write", f.rel, size=n)
        except InjectedOSError as e:
            if self.full and n > 1:      # the part that still fitted
                io.FileIO.write(f, data[:self.rng.randrange(n)])
            raise
        except SimCrash:
            k = self.rng.randrange(n + 1)        # torn: part of the write got through
            if k:
                io.FileIO.write(f, data[:k])
            raise
        if spec is not None and spec.get("short") and n > 1:
            k = self.rng.randrange(1, n)
            io.FileIO.write(f, data[:k])
            if spec.get("err"):
                raise InjectedOSError(ERR[spec["err"]], os.strerror(ERR[spec["err"]]), self.path(f.rel))
            self.after()
            return k
        io.FileIO.write(f, data)
        self.stamp(f)
        self.after()
        return n

    def on_close(self, f):
        if not self.sim.crashed and f.writable():
            try:
                self.stamp(f)
                self.op("close", f.rel)
            except BaseException:
                io.FileIO.close(f)
                raise

    # -- patched entry points
    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = self.relpath(file)
        if rel is None or not isinstance(mode, str) or rel.endswith(".h5"):
            return REAL["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
        if self.sim.crashed:
            raise SimCrash("still dead")
        binary, text = "b" in mode, "b" not in mode
        writing = any(c in mode for c in "wax+")
        rawmode = mode.replace("t", "").replace("b", "").replace("U", "")
        exists = not isinstance(file, int) and os.path.exists(self.path(rel))
        if writing and not isinstance(file, int):
            self.op("open" if exists else "open-create", rel)
        elif not writing:
            self.sim.event("read", self._tag(rel))
            self.op("open-read", rel)
        raw = SimFileIO(file, rawmode, closefd, opener)
        raw.fs, raw.rel, raw.where = self, rel, self.sim.counts["line"]
        self.open_files.add(raw)
        if writing and not isinstance(file, int):
            if not exists:
                ino = Inode(None)
                ino.dirty = True
                self.inodes[rel] = ino
                self.journal.append(("link", rel, ino))
            elif "w" in mode:
                ino = self.inode(rel)
                ino.dirty = True
            self.after()
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        line = buffering == 1 and text
        size = buffering if buffering > 1 else 8192
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line)
        t.mode = mode
        return t

    def os_open(self, path, flags, mode=0o777, *, dir_fd=None):
        rel = self.relpath(path)
        if rel is None or dir_fd is not None:
            return REAL["os_open"](path, flags, mode, dir_fd=dir_fd)
        if os.path.isdir(path):
            self.op("opendir", rel)
            fd = REAL["os_open"](path, flags, mode)
            self.fds[fd] = rel
            return fd
        exists = os.path.exists(self.path(rel))
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
            self.op("open" if exists else "open-create", rel)
        fd = REAL["os_open"](path, flags, mode)
        self.fds[fd] = rel
        if flags & os.O_CREAT and not exists:
            ino = Inode(None)
            ino.dirty = True
            self.inodes[rel] = ino
            self.journal.append(("link", rel, ino))
        elif flags & os.O_TRUNC:
            self.inode(rel).dirty = True
        self.after()
        return fd

    def os_close(self, fd):
        self.fds.pop(fd, None)
        return REAL["os_close"](fd)

    def os_write(self, fd, data):
        rel = self.fds.get(fd)
        if rel is None:
            return REAL["os_write"](fd, data)
        if self.sim.crashed:
            return len(data)
        self.inode(rel).dirty = True
        spec = self.op("write", rel)
        if spec is not None and spec.get("short") and len(data) > 1:
            data = bytes(data)[:self.rng.randrange(1, len(data))]
        n = REAL["os_write"](fd, data)
        self.after()
        return n

    def _rel_of_fd(self, fd):
        if fd in self.fds:
            return self.fds[fd]
        for f in list(self.open_files):
            if not f.closed and f.fileno() == fd:
                return f.rel
        return None

    def fsync(self, fd):
        n = fd if isinstance(fd, int) else fd.fileno()
        rel = self._rel_of_fd(n)
        if rel is None:
            return REAL["fsync"](n)
        self.op("fsync", rel)
        p = self.path(rel)
        if os.path.isdir(p):
            self.forced = len(self.journal)
            return None
        if rel in self.inodes:
            ino = self.inodes[rel]
            size = os.fstat(n).st_size
            with REAL["open"]("/proc/self/fd/%d" % n, "rb") as f:
                ino.durable = f.read(size)
            ino.dirty = False
            # its own directory entry: most file systems commit it with the file
            for i in range(len(self.journal) - 1, self.forced - 1, -1):
                if self.journal[i][0] == "link" and self.journal[i][2] is ino:
                    self.forced = i + 1
                    break
        return None

    def _rename(self, what, src, dst, **k):
        a, b = self.relpath(src), self.relpath(dst)
        if b is not None and a is None and not k:
            # moved in from elsewhere: new content under this name, nothing synced
            self.op("rename", "?>" + b)
            r = REAL[what](src, dst)
            ino = self.inodes[b] = Inode(None)
            ino.dirty = True
            self.journal.append(("link", b, ino))
            self.after()
            return r
        if a is None or b is None or k:
            return REAL[what](src, dst, **k)
        self.op("rename", a + ">" + b)
        r = REAL[what](src, dst)
        if a in self.inodes:
            self.inodes[b] = self.inodes.pop(a)
        self.journal.append(("rename", a, b))
        self.after()
        return r

    def replace(self, src, dst, **k):
        return self._rename("replace", src, dst, **{x: y for x, y in k.items() if y is not None})

    def rename(self, src, dst, **k):
        return self._rename("rename", src, dst, **{x: y for x, y in k.items() if y is not None})

    def remove(self, path, *, dir_fd=None):
        rel = self.relpath(path)
        if rel is None or dir_fd is not None:
            return REAL["remove"](path, dir_fd=dir_fd)
        self.op("unlink", rel)
        r = REAL["remove"](path)
        self.inodes.pop(rel, None)
        self.journal.append(("unlink", rel))
        self.after()
        return r

    def link(self, src, dst, **k):
        a, b = self.relpath(src), self.relpath(dst)
        if a is None or b is None:
            return REAL["link"](src, dst, **k)
        self.op("link", b)
        r = REAL["link"](src, dst)
        self.inodes[b] = self.inode(a)
        self.journal.append(("link", b, self.inodes[b]))
        self.after()
        return r

    # -- machine crash: decide what survived
    def power_loss(self, rng):
        """Set the directory to a state the disk may be in after losing power now."""
        ns = dict(self.base)
        k = rng.randint(self.forced, len(self.journal))
        for j in self.journal[:k]:
            if j[0] == "link":
                ns[j[1]] = j[2]
            elif j[0] == "rename":
                if j[1] in ns:
                    ns[j[2]] = ns.pop(j[1])
            else:
                ns.pop(j[1], None)
        # current kernel-level content of the inodes that are still visible
        cur = {}
        for rel, ino in self.inodes.items():
            if os.path.exists(self.path(rel)):
                cur[id(ino)] = self.content(rel)
        out = {}
        for rel, ino in ns.items():
            now = cur.get(id(ino), ino.durable if ino.durable is not None else b"")
            if not ino.dirty:
                out[rel] = ino.durable if ino.durable is not None else now
                continue
            old = ino.durable if ino.durable is not None else b""
            m = rng.choice(["old", "now", "empty", "torn", "zeros"])
            if m == "old":
                out[rel] = old
            elif m == "now":
                out[rel] = now
            elif m == "empty":
                out[rel] = b""
            elif m == "torn":
                out[rel] = now[:rng.randrange(len(now) + 1)]
            else:
                c = rng.randrange(len(now) + 1)
                out[rel] = now[:c] + b"\0" * (len(now) - c)
        self.sim.event("power-loss", k, len(self.journal), sorted((r, len(v)) for r, v in out.items()))
        for rel in set(self.inodes) | set(self.base):
            if os.path.exists(self.path(rel)) and rel not in out:
                REAL["remove"](self.path(rel))
        for rel, data in out.items():
            with REAL["open"](self.path(rel), "wb") as f:
                f.write(data)
        self.sync_all()

    def snapshot(self):
        out = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), self.root)
                out[rel] = self.content(rel)
        return out

    def reset(self, files):
        """Make the directory hold exactly `files`, all of it on disk."""
        for rel in self.snapshot():
            if rel not in files:
                REAL["remove"](self.path(rel))
        for rel, data in files.items():
            with REAL["open"](self.path(rel), "wb") as f:
                f.write(data)
        self.full = False
        self.sync_all()

    def leaked(self):
        """Files under the scratch directory still open for writing."""
        return sorted(f.rel for f in list(self.open_files) if not f.closed and f.writable())


def install_fs(sim):
    fs = sim.fs = SimFS(sim, sim.dir)
    fs.sync_all()
    sim.patch(builtins, "open", fs.open)
    sim.patch(io, "open", fs.open)
    for name, fn in (("open", fs.os_open), ("close", fs.os_close), ("write", fs.os_write), ("fsync", fs.fsync),
                     ("fdatasync", fs.fsync), ("replace", fs.replace), ("rename", fs.rename),
                     ("remove", fs.remove), ("unlink", fs.remove), ("link", fs.link)):
        sim.patch(os, name, fn)
    sim.patch(shutil, "_USE_CP_SENDFILE", False)
    for k in ("open", "replace", "rename", "remove", "unlink", "fsync"):
        real = REAL["os_open"] if k == "open" else REAL[k]
        sim.replace("misfit", real, getattr(os, k))
    sim.patch(tempfile, "_name_sequence", _Names(sim.seed))


class _Names(object):
    def __init__(self, seed):
        self.rng = sub_rng(seed, "names")

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz0123456789_") for _ in range(8))


# ------------------------------------------------------------------------------------------- HDF5
def install_h5(sim):
    """HDF5 files: opening and closing are fault and crash points; the library itself is real."""
    import h5py
    real = h5py.File
    sim.h5_open = weakref.WeakSet()

    class File(real):
        def __init__(self, name, mode="r", *a, **k):
            if sim.crashed:
                raise SimCrash("still dead")
            rel = os.path.basename(os.fspath(name)) if not isinstance(name, int) else name
            f = sim.point("h5", "open", mode, rel)
            if f is not None and f.get("err"):
                raise InjectedOSError(ERR[f["err"]], os.strerror(ERR[f["err"]]), name)
            real.__init__(self, name, mode, *a, **k)
            self._sim_rw = mode != "r"
            sim.h5_open.add(self)

        def close(self):
            rw, self._sim_rw = getattr(self, "_sim_rw", False), False
            was = bool(self)
            real.close(self)
            if was and rw and not sim.crashed:
                f = sim.point("h5", "closed")
                if f is not None and f.get("err"):
                    raise InjectedOSError(ERR[f["err"]], os.strerror(ERR[f["err"]]))

    sim.patch(h5py, "File", File)
    sim.replace("misfit", real, File)
    for mn, m in list(sys.modules.items()):
        if mn.startswith("emcee") and getattr(m, "h5py", None) is not None and m.h5py is not h5py:
            sim.patch(m.h5py, "File", File)


# ------------------------------------------------------------------------------------ evaluations
def install_eval(sim):
    """Each log-probability evaluation the sampler asks for is a point (in workers, too)."""
    import emcee.ensemble as ens
    real = ens._FunctionWrapper.__call__

    def call(self, x):
        f = sim.point("eval", sim.in_worker)
        if f is not None and f.get("act") in ("nan", "-inf", "inf"):
            real(self, x)
            return {"nan": float("nan"), "-inf": -np.inf, "inf": np.inf}[f["act"]]
        sim.clock_t += .05
        return real(self, x)

    sim.patch(ens._FunctionWrapper, "__call__", call)


def install_profile(sim):
    """Each use of a kinematic or intensity profile (objects the user may supply) is a point."""
    import misfit

    def hook(cls, name):
        real = getattr(cls, name, None)
        if real is None:
            return

        def call(self, *a, **k):
            sim.point("profile", name)
            return real(self, *a, **k)
        sim.patch(cls, name, call)

    for cls, names in (("KinProfileFiducial", ("vel", "disp")), ("IntensityProfileFiducial", ("int",)),
                       ("IntensityProfileSersicExpScale", ("int",))):
        c = getattr(misfit, cls, None)
        for n in names:
            if c is not None:
                hook(c, n)


# --------------------------------------------------------------------------------- plot rendering
def install_plots(sim, stub=True):
    """Rendering to file is replaced by writing a few bytes to the (simulated) file; with stub=True
    drawing is skipped, too."""
    import matplotlib.figure
    import matplotlib.pyplot as plt

    def savefig(self, fname, *a, **k):
        f = sim.point("savefig", os.path.basename(str(fname)))
        if f is not None and f.get("err"):
            raise InjectedOSError(ERR[f["err"]], os.strerror(ERR[f["err"]]), str(fname))
        if isinstance(fname, (str, os.PathLike)):
            with builtins.open(fname, "wb") as out:
                out.write(b"\x89PNG stub\n" * 4)
        else:
            fname.write(b"\x89PNG stub\n" * 4)

    sim.patch(matplotlib.figure.Figure, "savefig", savefig)
    sim.patch(plt, "show", lambda *a, **k: sim.event("show"))
    if stub:
        import misfit.plot as mp
        for name in ("plot_trace", "plot_param_corner", "plot_bestfit_model"):
            old = getattr(mp, name, None)
            if old is None:
                continue
            def draw(*a, **k):
                fileout = k.get("fileout")
                sim.event("plot", fileout and os.path.basename(fileout))
                np.random.random_sample(3)         # drawing may consume random numbers
                if fileout is not None:
                    fig = matplotlib.figure.Figure()
                    fig.savefig(fileout)
            sim.replace("misfit", old, draw)


# -------------------------------------------------------------------------------- line-level faults
def pick_line(seen, u, v):
    """A line number to fault at: every source line equally likely, then one of the times it was executed."""
    ks = sorted(seen)
    xs = seen[ks[min(int(u * len(ks)), len(ks) - 1)]]
    return xs[min(int(v * len(xs)), len(xs) - 1)]


_exits = {}


def leaving_with(code, at):
    """Is the interpreter about to call __exit__ of a with block here? It reports the with statement's line once
    more then, but no interrupt can come between the block and that call."""
    if code not in _exits:
        ins = [i for i in dis.get_instructions(code) if i.opname not in ("CACHE", "NOP", "EXTENDED_ARG")]
        out = set()
        for a, b, c, d in zip(ins, ins[1:], ins[2:], ins[3:]):
            if all(i.opname == "LOAD_CONST" and i.argval is None for i in (a, b, c)) and d.opname in ("CALL", "PRECALL"):
                out.add(a.offset)
            if a.opname == "PUSH_EXC_INFO" and b.opname == "WITH_EXCEPT_START":
                out.add(a.offset)
        _exits[code] = out
    return at in _exits[code]


_lines = {}
SAFE = ("len", "isinstance", "issubclass", "hasattr", "getattr", "callable", "type", "range", "int", "float", "str", "bool", "iter", "id")


def can_fail(fn, line):
    """Does the line do work that can run out of memory (a call or arithmetic)? Asking whether something has a
    length, an attribute or a type cannot, and is how a program tells a number from an array in a try block."""
    if fn not in _lines:
        out = set()
        for n in ast.walk(ast.parse(SourceFileLoader("x", fn).get_data(fn))):      # not through the simulated open()
            if isinstance(n, (ast.BinOp, ast.AugAssign)) or isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id in SAFE):
                out.update(range(n.lineno, n.end_lineno + 1))
        _lines[fn] = out
    return line in _lines[fn]


class LineTracer(object):
    """Counts executed lines of the package (or of given files) and raises at the armed one."""

    def __init__(self, sim, files=None, on_line=None):
        self.sim, self.files, self.on_line = sim, files, on_line
        self.n, self.target, self.exc = 0, None, None
        self.where = None
        self.seen = None          # {(file, line): [times executed]} when recording

    def match(self, fn):
        if self.files is not None:
            return any(f in fn for f in self.files)
        return fn.startswith(boot.PKG)

    def trace(self, frame, event, arg):
        if not self.match(frame.f_code.co_filename):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and not leaving_with(frame.f_code, frame.f_lasti):
            n = self.n
            self.n = n + 1
            self.sim.counts["line"] = self.n
            if self.seen is not None:
                self.seen.setdefault((os.path.basename(frame.f_code.co_filename), frame.f_lineno), []).append(n)
            if n == self.target and self.exc in ("RuntimeError", "MemoryError") and not can_fail(frame.f_code.co_filename, frame.f_lineno):
                self.target = n + 1              # the next line that can
            elif n == self.target:
                self.target = None
                self.where = "%s:%s:%d" % (os.path.basename(frame.f_code.co_filename),
                                           frame.f_code.co_name, frame.f_lineno)
                self.sim.fired.append({"kind": "line", "n": n, "exc": self.exc, "at": self.where})
                self.sim.stats["fault:line:%s" % self.exc] += 1
                self.sim.event("FAULT line", n, self.exc, frame.f_code.co_name)
                if self.exc == "Crash":
                    self.sim.crashed = True
                raise EXC[self.exc]()
        return self.local

    def run(self, fn, target=None, exc="KeyboardInterrupt"):
        """fn() with the fault at line number `target` (None: just count)."""
        self.n, self.target, self.exc, self.where = 0, target, exc, None
        old = sys.gettrace()
        sys.settrace(self.trace)
        try:
            return fn()
        finally:
            sys.settrace(old)


def install_all(sim, plots="stub"):
    install_fs(sim)
    install_pool(sim)
    install_clock(sim)
    install_h5(sim)
    install_eval(sim)
    if plots is not None:
        install_plots(sim, plots == "stub")
    return sim


def released(sim, line=None):
    """What the failed or finished run still holds: list of names. With `line` (an interrupt hit there), what was
    acquired within the three lines before it is not listed: it may not have been handed over yet."""
    def late(x):
        return line is not None and line - 3 <= getattr(x, "where", 0) <= line

    out = ["pool of %d workers" % p._processes for p in list(SimPool.live) if not late(p)]
    out += ["file " + f.rel for f in list(sim.fs.open_files) if not f.closed and f.writable() and not late(f)]
    out += ["HDF5 file" for f in list(sim.h5_open) if f]
    return sorted(out)
