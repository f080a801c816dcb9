"""Runs cases: seeded generation, one fresh process per case, minimisation, replay, evidence."""
import contextlib
import hashlib
import importlib
import json
import os
import pickle
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import boot
from .core import Sim, SimCrash, Violation, sub_rng

CPU_LIMIT = 170          # seconds of CPU one simulated run may use before it counts as stuck
WALL_LIMIT = 600
SIM_VERSION = 1


class HarnessError(Exception):
    pass


def prop_module(pid):
    return importlib.import_module("props." + pid.lower())


def case_seed(base, pid, i):
    return int(hashlib.sha256(("%s:%s:%d" % (base, pid, i)).encode()).hexdigest()[:12], 16)


def make_case(mod, base, i, tier):
    seed = case_seed(base, mod.ID, i)
    case = mod.gen(sub_rng(seed, "case"), tier, i)
    case["prop"] = mod.ID
    case["seed"] = seed
    return json.loads(json.dumps(case))


def warm(mod):
    """Load and compile everything once, so that the forked runs start from one warm state."""
    misfit = boot.load()
    w = getattr(mod, "warm", None)
    with silence():
        if w is not None:
            boot.pristine(w, misfit)
    import gc
    gc.collect()
    gc.freeze()
    return misfit


@contextlib.contextmanager
def silence():
    sys.stdout.flush()
    sys.stderr.flush()
    keep = os.dup(1), os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)
    try:
        yield
    finally:
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        os.dup2(keep[0], 1)
        os.dup2(keep[1], 2)
        os.close(keep[0])
        os.close(keep[1])


def run_here(mod, case, scratch):
    """One simulated run in this process. Returns a plain result dict."""
    import numpy as np
    import random
    misfit = boot.load()
    sim = Sim(case, scratch)
    np.random.seed(case["seed"] % (1 << 32))
    random.seed(case["seed"])
    cwd = os.getcwd()
    os.chdir(scratch)
    t0 = time.time()
    res = {"ok": True}
    try:
        try:
            mod.run(misfit, case, sim)
        finally:
            sys.settrace(None)
            sim.restore()
            os.chdir(cwd)
    except Violation as e:
        res = {"ok": False, "sig": e.sig, "msg": e.msg[-4000:]}
        sim.event("VIOLATION", e.sig)
    except SimCrash as e:
        res = {"harness": "SimCrash escaped: " + "".join(traceback.format_exc())[-3000:]}
    except BaseException:
        res = {"harness": "".join(traceback.format_exc())[-3000:]}
    states = sorted(hashlib.sha256(repr(s).encode()).hexdigest()[:12] for s in sim.states)
    res.update(hash=sim.hash(), events=sim.nevents, fired=sim.fired, stats=dict(sim.stats), points=dict(sim.counts),
               states=states, simtime=sim.clock_t - sim.clock_t0, tail=list(sim.tail), wall=time.time() - t0)
    return res


def run_forked(mod, case, cpu=CPU_LIMIT):
    """One simulated run in a forked child with its own scratch directory."""
    scratch = tempfile.mkdtemp(prefix="misfit-sim-")
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            null = os.open(os.devnull, os.O_RDWR)
            for fd in (0, 1, 2):
                os.dup2(null, fd)
            res = run_here(mod, case, scratch)
            data = pickle.dumps(res)
            mv = memoryview(data)
            while mv:
                mv = mv[os.write(w, mv):]
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    chunks, deadline, timed_out = [], time.time() + WALL_LIMIT, False
    while True:
        ready, _, _ = select.select([r], [], [], max(0., deadline - time.time()))
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status, ru = os.wait4(pid, 0)
    shutil.rmtree(scratch, ignore_errors=True)
    if chunks and not timed_out:
        return pickle.loads(b"".join(chunks))
    used = ru.ru_utime + ru.ru_stime
    base = dict(hash="-", events=0, fired=[], stats={}, points={}, states=[], simtime=0., tail=[], wall=used)
    if used >= cpu - 1 or timed_out:
        return dict(base, ok=False, sig="no-progress", msg="the run did not finish within %d CPU seconds "
                    "(used %.0f, wall limit hit: %s)" % (cpu, used, timed_out))
    return dict(base, harness="the run died: status %s" % status)


# ------------------------------------------------------------------------------------- many runs
def run_many(mod, cases, workers=8, wall_cap=500., stop_on=3):
    """Run cases over several worker loops. Yields (index, result) as they finish."""
    t0 = time.time()
    n = len(cases)
    job_r, job_w = os.pipe()
    out = []
    pids = []
    for wk in range(min(workers, n)):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                os.close(job_w)
                for rr in out:
                    os.close(rr)
                k = wk
                while True:
                    b = os.read(job_r, 4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, "little")
                    res = run_forked(mod, cases[i])
                    data = pickle.dumps((i, res))
                    data = len(data).to_bytes(8, "little") + data
                    mv = memoryview(data)
                    while mv:
                        mv = mv[os.write(w, mv):]
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(w)
        out.append(r)
        pids.append(pid)
    os.close(job_r)
    # the job pipe holds 4-byte indices; feed it gradually so that a stop takes effect
    nxt, done, bad = 0, 0, 0
    bufs = {r: b"" for r in out}
    def feed(m):
        nonlocal nxt
        while nxt < n and m > 0:
            os.write(job_w, nxt.to_bytes(4, "little"))
            nxt += 1
            m -= 1
    feed(min(workers, n) + 2)
    live = set(out)
    closed = False
    while live:
        if not closed and (nxt >= n or time.time() - t0 > wall_cap or bad >= stop_on):
            os.close(job_w)
            closed = True
        ready, _, _ = select.select(list(live), [], [], 1.)
        for r in ready:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                os.close(r)
                continue
            bufs[r] += b
            while len(bufs[r]) >= 8:
                ln = int.from_bytes(bufs[r][:8], "little")
                if len(bufs[r]) < 8 + ln:
                    break
                i, res = pickle.loads(bufs[r][8:8 + ln])
                bufs[r] = bufs[r][8 + ln:]
                done += 1
                if not res.get("ok", False):
                    bad += 1
                if not closed:
                    feed(1)
                yield i, res
    for p in pids:
        os.waitpid(p, 0)


# ---------------------------------------------------------------------------------- minimisation
def shrinks(mod, case):
    """Smaller variants of a case, most drastic first."""
    own = getattr(mod, "shrinks", None)
    if own is not None:
        for c in own(case):
            yield c
    for key in ("ops", "faults", "clock_jumps"):
        xs = case.get(key)
        if not isinstance(xs, list) or not xs:
            continue
        size = len(xs)
        while size >= 1:
            for a in range(0, len(xs), size):
                c = json.loads(json.dumps(case))
                c[key] = xs[:a] + xs[a + size:]
                if getattr(mod, "valid", lambda c: True)(c):
                    yield c
            size //= 2
    for path, simple in getattr(mod, "SIMPLE", ()):
        c = json.loads(json.dumps(case))
        o = c
        ks = path.split(".")
        try:
            for k in ks[:-1]:
                o = o[k]
            if o[ks[-1]] == simple:
                continue
            o[ks[-1]] = simple
        except (KeyError, TypeError, IndexError):
            continue
        if getattr(mod, "valid", lambda c: True)(c):
            yield c


def minimise(mod, case, sig, budget=90.):
    t0, tried, kept = time.time(), 0, 0
    seen = {json.dumps(case, sort_keys=True)}
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        for c in shrinks(mod, case):
            k = json.dumps(c, sort_keys=True)
            if k in seen:
                continue
            seen.add(k)
            if time.time() - t0 > budget:
                break
            tried += 1
            r = run_forked(mod, c)
            if not r.get("ok", True) and r.get("sig") == sig:
                case, progress = c, True
                kept += 1
                break
    return case, tried, kept


def known_findings():
    path = os.path.join(boot.VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f).get("findings", [])
