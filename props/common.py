"""Shared by the property modules: warm-up, building blocks, result extraction."""
import copy
import os
import pickle
import tempfile
import shutil

import numpy as np

from sim import boot, core, refmodel, seams, world
from sim.core import Sim, Violation, SimCrash, same, plain, diff, digest, sub_rng

REAL_COMPONENTS = ["misfit (all modules, unmodified)", "emcee sampler and moves", "emcee HDF backend and h5py/HDF5 library",
                   "numpy/scipy/numba/lmfit numerics", "pickle", "Python buffered and text I/O layers",
                   "the kernel's file system as page cache under the scratch directory"]
STUBS = ["multiprocessing.Pool / ProcessPoolExecutor (simulated workers, seeded schedule, real pickling)",
         "time, datetime and CPU count (simulated)", "write/open/fsync/rename/unlink system calls (may fail, tear, crash)",
         "what a power loss leaves of unsynced data (model)", "numpy and Python random numbers (seeded)",
         "figure rendering (a few bytes are written instead)"]


def warm2d(misfit, fit=True):
    """Import and compile everything the 2D cases use."""
    import random
    d = tempfile.mkdtemp(prefix="misfit-warm-")
    try:
        sim = Sim({"seed": 1}, d)
        seams.install_all(sim)
        try:
            np.random.seed(1)
            for kw in (dict(psf_type="Gaussian", nsub=1), dict(psf_type="Moffat", nsub=2, pos_shift=True),
                       dict(psf_type="Gaussian", eff_res=True, n=1.5)):
                c = world.gen_cfg(random.Random(5), ny=8, nw=9, vary=[True] * 3 + [False] * 2, nstep=2, nburn=1,
                                  linked="pair", **kw)
                w = world.build(misfit, c, d)
                w.fit.setup_model()
                for s in (5., 60.):
                    w.fit.update_model([100., .3, s])
                if fit and not kw.get("pos_shift") and not kw.get("eff_res"):
                    w.fit.fit()
        finally:
            sim.restore()
    except Exception:
        pass          # a broken tree is for the runs to report
    finally:
        shutil.rmtree(d, ignore_errors=True)


def res2d(fit, model=True):
    """What a 2D fit reports, as plain data."""
    s, m = fit.sampler_dict, fit.mcmc_results
    out = dict(chain=np.array(s["chain"]), lnprob=np.array(s["lnprobability"]), flatchain=np.array(s["flatchain"]),
               flatlnprob=np.array(s["flatlnprobability"]), af=np.array(s["acceptance_fraction"]),
               nIter=int(s["nIter"]), nParam=int(s["nParam"]), nWalkers=int(s["nWalkers"]))
    if m.bestfit_theta is not None:
        out.update(best=np.array(m.bestfit_theta), err1=np.array(m.err_theta_1sig), err2=np.array(m.err_theta_2sig),
                   opp=np.array(m.percent_oppsign), best_free=np.array(m.bestfit_theta_fitting))
        if model and fit.kinModel is not None and fit.kinModel.bestfit is not None:
            out["model"] = np.array(fit.kinModel.bestfit.model)
            out["model_theta"] = np.array(fit.kinModel.bestfit.theta, dtype=float)
    return out


def differs(a, b, rtol=1e-9, keys=None):
    """First key in which two result dicts differ, or None."""
    for k in sorted(set(a) | set(b)):
        if keys is not None and k not in keys:
            continue
        if k not in a or k not in b:
            return "%s only in one" % k
        if not same(a[k], b[k], rtol):
            x, y = np.asarray(a[k], float), np.asarray(b[k], float)
            if x.shape != y.shape:
                return "%s: shapes %s and %s" % (k, x.shape, y.shape)
            j = int(np.nanargmax(np.abs(x - y).ravel())) if x.size else 0
            return "%s: max difference %.3g (%r against %r)" % (k, np.nanmax(np.abs(x - y)), x.ravel()[j], y.ravel()[j])
    return None


def log_results(sim, tag, r):
    sim.event("result", tag, digest(r))


def ref_model(c, spec, theta, scale=True, ifu=False, model=None):
    """The independent reference model for prepared data `spec`. With `model`: rows in which there is no light but
    the rounding errors of the convolution, which scaling to the data blows up, are taken from it."""
    p = world.refparams(c)
    m = refmodel.forward(p, theta, np.asarray(spec.wave), spec.flux.shape[0], spec.m0,
                         np.asarray(spec.restwave_arr), np.asarray(spec.flux_ratio_arr), ifu=ifu)
    if ifu or not scale:
        return m
    r = refmodel.scaled(m, spec)
    if model is not None and np.shape(model) == r.shape:
        dark = np.abs(m).max(axis=1) < 1e-8 * np.abs(m).max()
        r[dark] = np.asarray(model)[dark]
    return r


def sub_run(sim, name, fn, case=None, plots="stub", **kw):
    """fn(sub_sim) in its own forked process with its own scratch directory, schedule and clock.
    Returns its value; what it met (events, faults, states, clock) is merged into `sim`."""
    case = dict(sim.case, **(case or {}))
    d = os.path.join(sim.dir, name)
    os.makedirs(d, exist_ok=True)

    def go():
        s = Sim(case, d)
        s.seed = "%s:%s" % (sim.seed, name) if case.get("own_seed", True) else sim.seed
        seams.install_all(s, plots)
        if "rng_seed" in kw:
            np.random.seed(kw["rng_seed"])
        val = fn(s)
        return val, s.hash(), s.nevents, s.fired, dict(s.stats), dict(s.counts), s.states, s.clock_t - s.clock_t0

    val, h, n, fired, stats, counts, states, dt = sim.isolated(go)
    sim.event("sub", name, h, digest(val) if kw.get("hash_value", True) else "")
    sim.nevents += n
    sim.fired += fired
    sim.states |= states
    sim.clock_t += dt
    for k, v in stats.items():
        sim.stats[k] += v
    for k, v in counts.items():
        sim.counts[k] += v
    return val


def procstate():
    """Settings of the whole process that the package shares with its caller."""
    import signal
    import sys
    u = os.umask(0o22)
    os.umask(u)
    return dict(cwd=os.getcwd(), umask=u, errors=np.geterr(), printoptions=repr(sorted(np.get_printoptions().items(), key=str)),
                signals=[str(signal.getsignal(getattr(signal, n))) for n in ("SIGINT", "SIGTERM", "SIGALRM", "SIGCHLD", "SIGPIPE")],
                environ=dict(os.environ), recursion=sys.getrecursionlimit(), timer=signal.getitimer(signal.ITIMER_REAL)[0] > 0)


def check_proc(sim, before, what):
    """Nothing the package does changes the process around it."""
    now = procstate()
    sim.check(now == before, "process-changed", lambda: "%s changed the process: %s" % (what, "; ".join(
        "%s is %.80r, was %.80r" % (k, now[k], before[k]) for k in now if now[k] != before[k])))


def fresh_run(sim, hashseed, prop, name, args, d):
    """props.<prop>.<name>(misfit, sim, *args) in a newly started interpreter (nothing imported or left over from
    here, another seed of Python's string hashes), with the scratch directory d."""
    import subprocess
    import sys
    t = tempfile.mkdtemp(prefix="fresh-")
    try:
        i, o = os.path.join(t, "in"), os.path.join(t, "out")
        with open(i, "wb") as f:
            pickle.dump((prop, dict(sim.case), name, args, d), f)
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), MISFIT_REPO=boot.REPO)
        null = subprocess.DEVNULL
        subprocess.call([sys.executable, os.path.join(boot.VERIF, "sim", "fresh.py"), i, o], env=env, stdin=null, stdout=null, stderr=null)
        with open(o, "rb") as f:
            kind, val = pickle.load(f)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    sim.stats["new-interpreters"] += 1
    if kind == "error":
        raise core.Violation("unexpected-error", "in a new interpreter: " + val)
    sim.event("fresh", name, digest(val))
    return val


def read_h5(path, group="mcmc"):
    """(chain, log_prob, accepted, iteration) of an emcee h5 file, read with h5py directly."""
    import h5py
    with h5py.File(path, "r") as f:
        if group not in f:
            return None
        g = f[group]
        it = int(g.attrs["iteration"])
        return dict(chain=np.array(g["chain"][:it]), lnprob=np.array(g["log_prob"][:it]),
                    accepted=np.array(g["accepted"]), iteration=it)


def rectified(c, chain):
    """The chain with absolute dispersions, if the configuration asks for those."""
    chain = np.array(chain)
    if c["absval"] and c["vary"][2]:
        j = sum(c["vary"][:2])
        chain[..., j] = np.abs(chain[..., j])
    return chain


def enlarge(chain, seed, nwalk, nstep):
    """A longer recorded chain like the given one (walkers, steps, parameters), and log-probabilities."""
    rs = np.random.RandomState(seed % (1 << 31))
    flat = np.array(chain).reshape(-1, chain.shape[-1])
    x = flat[rs.randint(len(flat), size=nwalk * nstep)]
    x = x + .3 * flat.std(axis=0) * rs.standard_normal(x.shape)
    return x.reshape(nwalk, nstep, -1), -rs.chisquare(3, size=(nwalk, nstep))


def record(d, chain, lnp):
    """The sampler dict `d` with another recorded chain."""
    nf = chain.shape[-1]
    d = dict(d)
    d.update(chain=chain.copy(), lnprobability=lnp.copy(), flatchain=chain.reshape(-1, nf).copy(), flatlnprobability=lnp.reshape(-1).copy(),
             nWalkers=chain.shape[0], nIter=chain.shape[1], acceptance_fraction=np.full(chain.shape[0], .4))
    return d
