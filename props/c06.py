"""C06: a fit records exactly the sampling steps it should."""
import pickle
import re

from props.common import *
from props import common

ID = "C06"
LEVEL = "exploration"
QUICK, THOROUGH = 320, 2400
RULE = ("a case is one file history of 1-4 fits over one h5 file (fresh or appending, each with its own burn-in, step count, "
        "convergence settings, workers, and possibly a crash, error or interrupt at a chosen evaluation, task, file or line); "
        "non-trivial: an early stop, an appended run or a fault")
STATES = "distinct (burn-in, requested steps, stop step, appended?, death kind, steps at death) tuples"
ASSUMPTIONS = ["a process may die at any evaluation, task, file operation, source line, or while opening or after closing the h5 file, "
               "not inside the HDF5 library",
               "the autocorrelation time is emcee's estimate from the recorded steps",
               "consecutive steps are recognised as stretch moves of the walkers"]
SIMPLE = [("cfg.nsub", 1), ("cfg.psf_type", "Gaussian")]


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    early = rng.random() < .3
    c = world.gen_cfg(rng, nsub=1, cont=False, linked="none")
    if early:
        c.update(vary=rng.choice([[True, True, False, False, False], [True, False, True, False, False], [True, False, False, False, False]]),
                 nwalk=6, linked="none")
    ops = []
    n = 1 if early and rng.random() < .6 else rng.choice([1, 2, 2, 3, 4])
    for k in range(n):
        o = dict(seed=rng.randrange(1 << 30), overwrite=rng.random() < .5, nburn=rng.choice([0, 0, 1, 2, 3, 4]),
                 nstep=rng.choice([1, 2, 3, 4, 6]), ncpu=rng.choice([1, 1, 1, 2, 3]), runAll=rng.random() < .5,
                 nEff=rng.choice([1, 2, 10, None]), minAF=rng.choice([None, .1, .3]), maxAF=rng.choice([None, .9]),
                 sampler=rng.random() < .8, log=rng.random() < .8, h5=k == 0 and n == 1 and rng.random() < .1)
        o["h5"] = not o["h5"]
        if early and k == 0:
            o.update(nstep=rng.choice([49, 50, 51, 52, 60, 75]), runAll=rng.random() < .12, nEff=rng.choice([1, 1, 2, 2, 3, 4, 5, 7]),
                     minAF=rng.choice([.05, .2, .5, None] if rng.random() < .3 else [.05, .2, .35]), maxAF=rng.choice([.95, .7, .5]),
                     ncpu=1)
            if rng.random() < .25:
                o["nburn"] = rng.choice([20, 49, 50, 51, 60, 110])
            if rng.random() < .6:
                # put a limit of the stop rule right where this run gets to at some step
                o["aim"] = dict(u=round(rng.random(), 4), how=rng.choice(["mean", "mean", "edge", "edge", "minAF", "maxAF", "exact"]),
                                side=rng.choice([-1., 1.]))
                if o["aim"]["how"] == "exact":
                    c["nwalk"], o["nstep"] = 8, 75
        elif rng.random() < .4:
            o["fault"] = dict(kind=rng.choice(["eval", "eval", "h5", "h5", "fs", "chunk", "line"]), u=round(rng.random(), 4),
                              exc=rng.choice(["Crash", "Crash", "Crash", "KeyboardInterrupt", "RuntimeError"]))
        ops.append(o)
    large = rng.random() < .025
    if large:              # as many walkers and steps as a real fit, of a Gaussian instead of the model
        nw, ns = rng.choice([(60, 190), (110, 130), (160, 90), (1020, 52), (2000, 28)])
        c.update(nwalk=nw)
        ops[0].update(nstep=ns, ncpu=1, nburn=min(ops[0]["nburn"], 20))
        if nw >= 1000:
            ops[0]["runAll"] = True
        for k in ("aim", "fault"):
            ops[0].pop(k, None)
        ops = ops[:1]
    # part of the allowed values without a finite probability: walkers can be stuck there when the burn-in ends
    hole = not large and rng.random() < .12
    if hole:
        for o in ops:
            o["nburn"] = max(o["nburn"], 1)
    return dict(cfg=c, ops=ops, large=large, hole=hole)


def holed(c, real):
    lim = [v for v, f in zip([250., .8, 110., .3, c["z"] + 3e-4], c["vary"]) if f][0]
    return lambda self, x: -np.inf if x[0] > lim else real(self, x)


def gaussian(c):
    """A log-probability of the same free parameters that costs nothing to evaluate."""
    th = [v for v, f in zip(list(c["theta0"][:4]) + [c["z"]], c["vary"]) if f]
    wd = [v for v, f in zip([40., .08, 9., .1, 1e-4], c["vary"]) if f]

    def lnp(self, x):
        return -.5 * float((((np.asarray(x) - th) / wd) ** 2).sum())
    return lnp


def stretch_ok(a, x0, x1):
    """Is x1 (walkers, dim) one ensemble step of stretch moves from x0? Returns the walker that is not."""
    n = len(x0)
    for k in range(0, n, 1 + n // 100):
        if np.array_equal(x0[k], x1[k]):
            continue
        o = np.arange(n) != k
        xj = np.concatenate([x0[o], x1[o]])
        d, e = x0[k] - xj, x1[k] - xj
        size = np.abs(d) / np.maximum(np.abs(x0[k]), 1e-300)       # the component that fixes the stretch best
        i = np.argmax(size, axis=1)
        r = np.arange(len(xj))
        z = e[r, i] / d[r, i]
        ok = (size[r, i] > 1e-13) & (z >= 1. / a - 1e-6) & (z <= a + 1e-6)
        near = np.abs(xj + z[:, None] * d - x1[k]) <= 1e-9 * np.abs(d).max(axis=1)[:, None] + 1e-9 * np.abs(x1[k])
        if not (ok & near.all(axis=1)).any():
            return k
    return None


def stop_step(c, o, chain, moved, first):
    """The step (count of the new steps) at which the run has to end. chain: (steps, walkers, dim), all recorded;
    moved: bool (steps, walkers); first: how many steps were there before this run."""
    import emcee
    n = len(chain) - first
    if o["runAll"] or o["minAF"] is None or o["maxAF"] is None or o["nEff"] is None:
        return o["nstep"]
    for ii in range(min(n, o["nstep"])):
        if ii < 49:
            continue
        tot = first + ii + 1
        try:
            tau = emcee.autocorr.integrated_time(chain[:tot], tol=10, quiet=True)
        except Exception:
            continue
        af = moved[:tot].sum() / float(tot * chain.shape[1])
        if o["minAF"] < af < o["maxAF"] and ii > np.max(tau) * o["nEff"]:
            return ii + 1
    return o["nstep"]


def aimed(misfit, c, o):
    """The run `o` with the limit it aims at: at a step of the same run without early stop."""
    import emcee
    a = o["aim"]

    def go(s):
        w = fit(misfit, c, dict(o, runAll=True, h5=False, log=False, sampler=False), s.dir)
        w.fit.setup_model()
        np.random.seed(o["seed"])
        s.sut(w.fit.run_mcmc)
        return np.swapaxes(np.array(w.fit.sampler_dict["chain"]), 0, 1), np.array(w.fit.sampler_dict["acceptance_fraction"])
    return go


def aim(o, chain, af):
    """Set the limit so that it is passed (or just not) at a step the seed picks."""
    import emcee
    a, n, o = o["aim"], len(chain), dict(o)
    if n < 51:
        return o
    ii = 49 + int(a["u"] * (n - 50)) + 1
    tau = emcee.autocorr.integrated_time(chain[:ii + 1], tol=10, quiet=True)
    if not (np.isfinite(tau).all() and tau.min() > 0):
        return o
    if a["how"] == "exact":
        # the acceptance fraction is exactly the limit after 64 steps, where it is a sum of 64ths (of 8 walkers): no stop
        ii = 63
        tau = emcee.autocorr.integrated_time(chain[:64], tol=10, quiet=True)
        if n < 65 or len(chain[0]) != 8 or not (np.isfinite(tau).all() and tau.min() > 0):
            return o
        moved = (chain[1:] != chain[:-1]).any(axis=2).sum()
        first = round(af.sum() * n - moved)
        at = ((chain[1:64] != chain[:63]).any(axis=2).sum() + first) / 512.
        o.update(nEff=float(63 / tau.max() * (1. - 1e-6)), minAF=.01, maxAF=.99)
        o["minAF" if a["side"] < 0 else "maxAF"] = float(at)
    elif a["how"] == "mean":
        o["nEff"] = float(ii / (.5 * (tau.mean() + tau.max())))
    elif a["how"] == "edge":
        o["nEff"] = float(ii / tau.max() * (1. + a["side"] * 1e-6))
    else:
        moved = (chain[1:] != chain[:-1]).any(axis=2).sum()
        total = af.sum() * n
        first = round(total - moved)
        at = ((chain[1:ii + 1] != chain[:ii]).any(axis=2).sum() + first) / float((ii + 1) * chain.shape[1])
        o[a["how"]] = float(at * (1. + a["side"] * 1e-6))
    return o


def options(misfit, c, o, d):
    outs = [x for x in ("sampler", "log", "h5") if o[x]]
    cc = dict(c, nburn=o["nburn"], nstep=o["nstep"], ncpu=o["ncpu"], runAll=o["runAll"], nEff=o["nEff"], minAF=o["minAF"],
              maxAF=o["maxAF"])
    m = world.mcmc_options(misfit, cc, d, outs)
    m.overwrite = o["overwrite"]
    return m, cc, outs


def fit(misfit, c, o, d):
    m, cc, outs = options(misfit, c, o, d)
    w = world.build(misfit, cc, d, outs, mcmcOptions=m)
    np.random.seed(o["seed"])
    return w


def undisturbed(misfit, case, upto, files):
    """The given file history, with run number `upto` undisturbed: its h5 groups, points and lines."""
    def go(s):
        for rel, data in files.items():
            with open(os.path.join(s.dir, rel), "wb") as f:
                f.write(data)
        s.fs.sync_all()
        o = case["ops"][upto]
        w = fit(misfit, case["cfg"], o, s.dir)
        w.fit.setup_model()
        base = dict(s.counts)
        tr = seams.LineTracer(s, files=("misfit/fit/fit_core.py", "misfit/fit/fit_io.py"))
        s.sut(tr.run if o.get("fault", {}).get("kind") == "line" else (lambda f: f()), w.fit.run_mcmc)
        p = os.path.join(s.dir, "fit.h5")
        return {k: s.counts[k] - base.get(k, 0) for k in s.counts}, tr.n, read_h5(p, "burnin_mcmc"), read_h5(p, "mcmc")
    return go


def run(misfit, case, sim):
    c = case["cfg"]
    refs = {}
    seams.install_all(sim)
    p = os.path.join(sim.dir, "fit.h5")
    if case.get("large"):
        import emcee
        sim.patch(emcee.ensemble._FunctionWrapper, "__call__", gaussian(c))
    if case.get("hole"):
        import emcee
        sim.patch(emcee.ensemble._FunctionWrapper, "__call__", holed(c, emcee.ensemble._FunctionWrapper.__call__))

    def groups():
        if not os.path.exists(p):
            return None, None
        return read_h5(p, "burnin_mcmc"), read_h5(p, "mcmc")

    for k, o in enumerate(case["ops"]):
        if o.get("aim") and k == 0:
            o = aim(o, *sub_run(sim, "aim", aimed(misfit, c, o), rng_seed=o["seed"], hash_value=False))
        b0, m0 = groups()
        first = 0 if o["overwrite"] or m0 is None else m0["iteration"]
        firstb = 0 if o["overwrite"] or b0 is None else b0["iteration"]
        ft = o.get("fault")
        tag = "run %d (%d burn-in steps, %d steps, overwrite %s)" % (k, o["nburn"], o["nstep"], o["overwrite"])
        full = None
        if ft is not None and o["h5"]:
            files = {}
            for r in ("fit.h5",):
                if os.path.exists(os.path.join(sim.dir, r)):
                    with open(os.path.join(sim.dir, r), "rb") as f:
                        files[r] = f.read()
            full = sub_run(sim, "undisturbed%d" % k, undisturbed(misfit, case, k, files), hash_value=False)
        w = sim.sut(fit, misfit, c, o, sim.dir)
        sim.sut(w.fit.setup_model)
        e = None
        if ft is not None and full is not None:
            pts, nlines = full[0], full[1]
            where = None
            np.random.seed(o["seed"])
            if ft["kind"] == "line":
                tr = seams.LineTracer(sim, files=("misfit/fit/fit_core.py", "misfit/fit/fit_io.py"))
                _, e = sim.attempt(tr.run, w.fit.run_mcmc, int(ft["u"] * nlines), ft["exc"])
                where = tr.where
            else:
                n = pts.get(ft["kind"], 0)
                n0 = sim.counts["eval"]
                if n:
                    sim.arm(ft["kind"], int(ft["u"] * n), exc=ft["exc"])
                _, e = sim.attempt(w.fit.run_mcmc)
                evals = sim.counts["eval"] - n0
            if e is not None:
                sim.check(core.is_injected(e), "unexpected-error", lambda: "%s: %r" % (tag, e))
            died = e is not None
            e = None
            if died:
                w = None
                core.collect()
                for f in list(sim.h5_open):
                    try:
                        f._sim_rw = False
                        f.close()
                    except Exception:
                        pass
            sim.disarm()
            if died:
                b1, m1 = groups()
                kind = "%s at %s" % (ft["exc"], where or ft["kind"])
                for name, new, old, all_, fst in (("burnin_mcmc", b1, b0, full[2], firstb), ("mcmc", m1, m0, full[3], first)):
                    if new is None:
                        sim.check(old is None or o["overwrite"], "h5-lost/" + name, lambda: "%s died (%s): the h5 group %s is gone" % (
                            tag, kind, name))
                        continue
                    n = new["iteration"]
                    stale = old is not None and n == old["iteration"] and np.array_equal(new["chain"], old["chain"])
                    sim.check(n <= all_["iteration"] and same(new["chain"], all_["chain"][:n], 1e-12) and
                              same(new["lnprob"], all_["lnprob"][:n], 1e-12) or (stale and o["overwrite"]), "h5-not-a-prefix/" + name, lambda: (
                        "%s died (%s): the h5 file's %d %s steps are not the first ones of the uninterrupted run (%d)" % (
                            tag, kind, n, name, all_["iteration"])))
                    if not (stale and o["overwrite"]):
                        sim.check(n >= fst, "h5-lost/" + name, lambda: "%s died (%s): earlier steps are gone" % (tag, kind))
                if ft["kind"] == "eval" and m1 is not None and not (o["overwrite"] and m0 is not None):
                    nw = len(full[3]["chain"][0])
                    done = (evals - nw) // nw - o["nburn"] - 1
                    sim.check(m1["iteration"] - first >= done, "h5-steps-missing", lambda: (
                        "%s died (%s) after %d evaluations: only %d steps are in the h5 file" % (
                            tag, kind, evals, m1["iteration"] - first)))
                sim.states.add((o["nburn"], o["nstep"], None, not o["overwrite"], ft["kind"], ft["exc"], m1 and m1["iteration"]))
                continue
        else:
            np.random.seed(o["seed"])
            sim.sut(w.fit.run_mcmc)
        # ---- a finished run
        s = w.fit.sampler_dict
        b1, m1 = groups() if o["h5"] else (None, None)
        nd, nw = sum(c["vary"]), c["nwalk"]
        chain = np.swapaxes(np.array(s["chain"]), 0, 1)
        lnp = np.swapaxes(np.array(s["lnprobability"]), 0, 1)
        last = None
        if o["h5"]:
            sim.check(b1 is not None and b1["iteration"] == firstb + o["nburn"] or (o["nburn"] == 0 and b1 is None), "burnin-count", lambda: (
                "%s: %s burn-in steps are in the h5 file, %d were there" % (tag, b1 and b1["iteration"], firstb)))
            if firstb and b1 is not None:
                sim.check(same(b1["chain"][:firstb], b0["chain"], 0.), "h5-changed/burnin", lambda: tag + ": earlier burn-in steps changed")
            if first:
                sim.check(m1["iteration"] >= first and same(m1["chain"][:first], m0["chain"], 0.) and
                          same(m1["lnprob"][:first], m0["lnprob"], 0.), "h5-changed/mcmc", lambda: tag + ": earlier steps changed")
            sim.check(same(m1["chain"], chain, 0.) and same(m1["lnprob"], lnp, 0.), "h5-differs", lambda: (
                "%s: h5 chain %s, in memory %s" % (tag, m1["chain"].shape, chain.shape)))
            if o["nburn"]:
                last = b1["chain"][-1], b1["lnprob"][-1]
                for j in range(firstb + 1, len(b1["chain"]) if not case.get("large") else min(firstb + 2, len(b1["chain"]))):
                    r = stretch_ok(c["a"], b1["chain"][j - 1], b1["chain"][j])
                    sim.check(r is None, "not-a-step/burnin", lambda: "%s: burn-in step %d of walker %d" % (tag, j, r))
        else:
            first = 0
        sim.check(chain.shape[1:] == (nw, nd), "chain-shape", lambda: "%s: chain %s" % (tag, chain.shape))
        moved = np.zeros(chain.shape[:2], dtype=bool)
        for j in range(len(chain)):
            if j == first:
                x0 = last
                if x0 is None:
                    moved[j] = True           # unknown: from the (unrecorded) starting positions
                    continue
                x0, l0 = x0
            elif j < first:
                if j == 0:
                    continue
                x0, l0 = chain[j - 1], lnp[j - 1]
            else:
                x0, l0 = chain[j - 1], lnp[j - 1]
            moved[j] = (chain[j] != x0).any(axis=1)
            if j < first:
                continue
            r = stretch_ok(c["a"], x0, chain[j]) if not case.get("large") or j in (1, len(chain) // 2, len(chain) - 1) else None
            sim.check(r is None, "not-a-step", lambda: "%s: step %d of walker %d is no move from %s" % (
                tag, j - first, r, "the last burn-in positions" if j == first else "the step before"))
            sim.check(same(lnp[j][~moved[j]], l0[~moved[j]], 0.), "not-a-step/lnprob", lambda: "%s: step %d keeps positions but not their "
                      "log-probabilities" % (tag, j - first))
        n = len(chain) - first
        af = np.array(s["acceptance_fraction"])
        if first == 0:
            # the very first step is known only if burn-in was recorded
            cnt = af * len(chain)
            rest = moved[1 if last is None else 0:].sum(axis=0)
            d = cnt - rest
            sim.check((d > -1e-6).all() and (d < (1 if last is None else 0) + 1e-6).all(), "acceptance", lambda: (
                "%s: acceptance fractions %s, but %s of %d steps moved" % (tag, af, rest, len(chain))))
            mv = moved.copy()
            if last is None:
                mv[0] = np.round(d).astype(bool)
            want = stop_step(c, o, chain, mv, 0)
            sim.check(n == want, "step-count", lambda: "%s: %d steps recorded, should be %d (nEff %s, AF limits %s-%s, run all %s)" % (
                tag, n, want, o["nEff"], o["minAF"], o["maxAF"], o["runAll"]))
        else:
            want = o["nstep"]
            sim.check(n == want or (n >= 50 and n < want and not o["runAll"]), "step-count", lambda: (
                "%s: %d steps appended, should be %d" % (tag, n, want)))
        sim.check(int(s["nIter"]) == len(chain) and int(s["nWalkers"]) == nw, "counts", lambda: "%s: nIter %s, chain %d" % (
            tag, s["nIter"], len(chain)))
        fc, fl = np.array(s["flatchain"])[:, :nd], np.array(s["flatlnprobability"])
        a, b = np.array(s["chain"]).reshape(-1, nd), np.array(s["lnprobability"]).reshape(-1)
        a2, b2 = chain.reshape(-1, nd), lnp.reshape(-1)
        sim.check((same(fc, a, 0.) and same(fl, b, 0.)) or (same(fc, a2, 0.) and same(fl, b2, 0.)), "flat-samples", lambda: (
            "%s: flattened samples do not correspond to the chain" % tag))
        if o["sampler"]:
            with open(w.mcmc.filename_sampler, "rb") as f:
                d = pickle.load(f)
            sim.check(all(same(d[q], s[q], 0.) for q in ("chain", "lnprobability", "flatchain", "flatlnprobability", "acceptance_fraction")),
                      "pickle-differs", lambda: "%s: the sampler file differs from the fit" % tag)
        if o["log"]:
            with open(w.mcmc.filename_log) as f:
                text = f.read()
            m = re.findall(r"Finished (\d+) steps", text)
            if m:
                sim.check(int(m[-1]) == n, "log-count", lambda: "%s: the log says %s steps, %d are recorded" % (tag, m[-1], n))
        sim.states.add((o["nburn"], o["nstep"], n, not o["overwrite"], None, None, None))
        sim.stats["finished-runs"] += 1
        sim.stats["early-stops"] += n < o["nstep"]
        sim.stats["appended-runs"] += first > 0
        # the analysed fit still has the same steps
        sim.sut(w.fit.analyze_results)
        s2 = w.fit.sampler_dict
        sim.check(same(np.array(s2["chain"]), rectified(c, s["chain"]), 0.) and same(s2["lnprobability"], np.swapaxes(lnp, 0, 1), 0.),
                  "analysis-changed-chain", lambda: "%s: analysing changed the recorded chain" % tag)
        sim.event("run", k, n, digest(chain))


def nontrivial(case, r):
    return bool(r["fired"]) or r["stats"].get("early-stops", 0) > 0 or r["stats"].get("appended-runs", 0) > 0
