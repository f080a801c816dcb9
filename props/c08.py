"""C08: a failed or interrupted fit fails cleanly and can be rerun."""
import hashlib
import pickle

from props.common import *
from props import common

ID = "C08"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 360, 5000
RULE = ("a case is one 2D fit disturbed by 1-3 successive faults (an error or interrupt at any model evaluation, profile call, worker task, pool start, file "
        "or h5 operation, plot file or executed source line of the whole fit; full disks and short writes), each at a seeded position among "
        "those the undisturbed fit passes, then rerun without faults on the same fit object, on a new fit of the same objects or on new "
        "objects; non-trivial: at least one fault took effect")
STATES = "distinct (fault kind, error, operation or function hit, rerun how, workers>1, outcome) tuples"
ASSUMPTIONS = ["a worker process that is killed outright is not simulated (the real pool waits for it forever)",
               "an interrupt within three lines of acquiring a pool or file may leave its release to the garbage collector",
               "an error while opening the h5 file may reach the caller as emcee's own error", "an interrupt reaches a worker's task as it reaches the main process"]
SIMPLE = [("cfg.nsub", 1), ("cfg.psf_type", "Gaussian"), ("cfg.ncpu", 1), ("cfg.linked", "none"), ("cfg.nburn", 0), ("prev", False)]
KINDS = ["eval"] * 5 + ["line"] * 7 + ["fs"] * 5 + ["h5"] * 3 + ["chunk"] * 2 + ["pool", "pool", "savefig"] + ["profile"] * 4


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    c = world.gen_cfg(rng, nburn=rng.choice([0, 1, 2]), nstep=rng.choice([2, 3]), ncpu=rng.choice([1, 1, 2, 3]), cont=rng.random() < .05)
    outs = [o for o in world.OUTPUTS if rng.random() < .7]
    ops = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        k = rng.choice(KINDS)
        f = dict(kind=k, u=round(rng.random(), 5), v=round(rng.random(), 5), how=rng.choice(["same", "same", "newfit", "newfit", "fresh"]),
                 whole=rng.random() < .3)
        if k in ("fs", "h5", "savefig"):
            if k == "fs" and rng.random() < .25:
                f["u"] = round(.1 * f["u"], 5)         # among the first file operations: the log
            r = rng.random()
            if r < .55 or k != "fs":
                f["err"] = rng.choice(["EIO", "ENOSPC", "EACCES", "EMFILE"])
            elif r < .7:
                f["act"] = "full"
            elif r < .8:
                f.update(short=True, err="EIO")
            elif r < .88:
                f.update(short=True, act="short")
            if rng.random() < .25 or not (f.get("err") or f.get("act")):
                f.pop("err", None), f.pop("act", None), f.pop("short", None)
                f["exc"] = "KeyboardInterrupt"
        elif k == "line":
            f["exc"] = rng.choice(["KeyboardInterrupt"] * 4 + ["MemoryError", "RuntimeError"])
        else:
            f["exc"] = rng.choice(["KeyboardInterrupt", "RuntimeError", "RuntimeError", "MemoryError"] + sorted(core.OTHER))
        ops.append(f)
    return dict(cfg=c, outputs=outs, ops=ops, prev=rng.random() < .6, plots="real" if rng.random() < .04 and sum(c["vary"][:3]) == 3 else "stub")


def meaning(rel, data):
    """Digest of a complete result file; None if it cannot be loaded."""
    try:
        o = pickle.loads(data)
        if rel.endswith(".pickle"):
            return digest([sorted(o)] + [np.asarray(o[k], dtype=float) for k in ("chain", "lnprobability", "flatchain", "flatlnprobability")])
        m = o.mcmc_results
        return digest([sorted(o.__dict__), np.asarray(m.bestfit_theta, float), np.asarray(m.err_theta_1sig, float),
                       np.asarray(o.galaxy.spec2D.flux), np.asarray(o.thetaSettings.theta, float)])
    except Exception:
        return None


def undisturbed(misfit, case, seed):
    def go(s):
        seams.install_profile(s)
        tr = seams.LineTracer(s)
        tr.seen = {}
        s.counts["eval"] = 0
        w = [None]
        marks = {}

        def all_():
            w[0] = world.build(misfit, case["cfg"], s.dir, case["outputs"])
            marks["n"], marks["counts"] = tr.n, dict(s.counts)
            np.random.seed(seed)
            w[0].fit.fit()
        base = dict(s.counts)
        s.sut(tr.run if any(f["kind"] == "line" for f in case["ops"]) else (lambda f: f()), all_)
        files = {}
        for r in ("fit.pickle", "fit.bestfit"):
            if os.path.exists(os.path.join(s.dir, r)):
                with open(os.path.join(s.dir, r), "rb") as f:
                    files[r] = meaning(r, f.read())
        seen = [{k: [x for x in xs if x >= n0] for k, xs in tr.seen.items() if xs[-1] >= n0} for n0 in (0, marks["n"])]
        seen[1] = {k: [x - marks["n"] for x in xs] for k, xs in seen[1].items()}
        for q in seen:
            for k, xs in q.items():
                q[k] = xs if len(xs) <= 12 else xs[:4] + xs[len(xs) // 2 - 2:len(xs) // 2 + 2] + xs[-4:]
        pts = [{k: s.counts[k] - b.get(k, 0) for k in s.counts} for b in (base, marks["counts"])]
        return res2d(w[0].fit), files, pts, seen
    return go


def run(misfit, case, sim):
    c = case["cfg"]
    seed = c["seed"]
    want, files, pts, seen = sub_run(sim, "undisturbed", undisturbed(misfit, case, seed), plots=case["plots"], hash_value=False)
    seams.install_all(sim, case["plots"])
    seams.install_profile(sim)
    fs = sim.fs
    rels = [r for r, o in (("fit.pickle", "sampler"), ("fit.bestfit", "bestfit")) if o in case["outputs"]]
    w = sim.sut(world.build, misfit, c, sim.dir, case["outputs"])
    old = {}
    if case["prev"]:
        np.random.seed(seed + 1)
        sim.sut(w.fit.fit)
        for r in rels:
            old[r] = meaning(r, fs.content(r))
            sim.check(old[r] is not None, "incomplete-save/" + r, "a finished fit left a file that cannot be loaded")
    out0 = sys_out()
    proc = procstate()

    def log_text():
        return fs.content("fit.log").decode("utf8", "replace") if os.path.exists(fs.path("fit.log")) else ""

    def start(how, w):
        """The fit to run next, and the objects it is made of."""
        if how == "same":
            return w
        if how == "newfit":
            return world.build(misfit, c, sim.dir, case["outputs"], gal=w.gal, inst=w.inst, settings=w.settings, kinModelOptions=w.options,
                               mcmcOptions=w.mcmc, kinProfile=w.kin, intensityProfile=w.intp)
        return world.build(misfit, c, sim.dir, case["outputs"])

    def go(how, w, whole):
        w2 = w if whole is None else start(how, w)
        np.random.seed(seed)
        w2.fit.fit()
        return w2

    for k, f in enumerate(case["ops"]):
        whole = f["whole"] and f["how"] != "same"
        if not whole:
            w = sim.sut(start, f["how"], w)
        n = pts[0 if whole else 1].get(f["kind"], 0)
        log0 = log_text()          # (no two logs are the same: they hold the time)
        tr = None
        if f["kind"] == "line":
            tr = seams.LineTracer(sim)
            target = seams.pick_line(seen[0 if whole else 1], f["u"], f["v"])
            w2, e = sim.attempt(tr.run, lambda: go(f["how"], w, whole or None), target, f["exc"])
        else:
            if n:
                kw = {x: f[x] for x in ("exc", "err", "act", "short") if x in f}
                sim.arm(f["kind"], min(int(f["u"] * n), n - 1), **kw)
            w2, e = sim.attempt(go, f["how"], w, whole or None)
        hit = sim.fired[-1] if sim.fired and len(sim.fired) > sim.stats["seen-faults"] else None
        sim.stats["seen-faults"] = len(sim.fired)
        sim.counts["line"] = 0 if tr is None else sim.counts["line"]
        desc = "%s %s at %s" % (f["kind"], f.get("exc") or f.get("err") or f.get("act"), (tr.where if tr else hit and hit["at"]))
        if e is not None:
            sim.check(core.is_injected(e) or f["kind"] == "h5", "unexpected-error", lambda: "%s: %s: %s" % (desc, type(e).__name__, e))
            if f.get("exc") == "KeyboardInterrupt":
                sim.check(isinstance(e, KeyboardInterrupt), "interrupt-replaced", lambda: "%s: the caller got %r" % (desc, e))
            held = seams.released(sim, tr.target if False else (tr.n if tr else None))
            sim.check(not held, "not-released", lambda: "%s: the caller has the error, still held: %s" % (desc, held))
            fn = e.__class__.__name__
            e = None
            core.collect()
            held = seams.released(sim)
            sim.check(not held, "not-released", lambda: "%s: still held afterwards: %s" % (desc, held))
        else:
            # nothing surfaced: then nothing may be missing
            sim.check(w2.fit.sampler_dict is not None and w2.fit.mcmc_results.bestfit_theta is not None, "silent-failure",
                      lambda: "%s: the fit returned normally without results" % desc)
            d = differs(res2d(w2.fit), want)
            sim.check(d is None, "silent-failure", lambda: "%s: the fit returned normally with other results: %s" % (desc, d))
            for r in rels:
                sim.check(os.path.exists(fs.path(r)) and meaning(r, fs.content(r)) == files[r], "silent-failure/" + r,
                          lambda: "%s: the fit returned normally, but %s is not its result file" % (desc, r))
            if "log" in case["outputs"]:
                text = log_text()
                sim.check("Finished %d steps" % c["nstep"] in text and text.rstrip().endswith("***") and text != log0, "silent-failure/log",
                          lambda: "%s: the fit returned normally, but its log is not complete" % desc)
            if "h5" in case["outputs"]:
                h = read_h5(fs.path("fit.h5"))
                sim.check(h is not None and same(rectified(c, np.swapaxes(h["chain"], 0, 1)), want["chain"], 1e-9), "silent-failure/h5",
                          lambda: "%s: the fit returned normally, but its h5 file is not complete" % desc)
            w = w2
            fn = "ok"
        sim.disarm()
        fs.full = False
        sim.check(sys_out() == out0, "stdout-closed", lambda: desc + ": the standard output is closed")
        check_proc(sim, proc, desc)
        for r in rels:
            v = os.path.exists(fs.path(r)) and meaning(r, fs.content(r))
            sim.check(v in ((old[r], files[r]) if r in old else (False, files[r])), "file-damaged/" + r, lambda: (
                "%s: %s is %s" % (desc, r, "gone" if v is False else "not loadable" if v is None else "neither the earlier nor the new version")))
            if v == files[r]:
                old[r] = v
        sim.states.add((f["kind"], f.get("exc"), f.get("err"), f.get("act"), str(tr.where if tr else hit and hit["at"][:1]), f["how"],
                        c["ncpu"] > 1, fn))
        # ---- rerun
        if k == len(case["ops"]) - 1 or f["u"] < .3:
            w = sim.sut(start, case["ops"][k]["how"], w)
            np.random.seed(seed)
            sim.sut(w.fit.fit)
            d = differs(res2d(w.fit), want)
            sim.check(d is None, "rerun-differs", lambda: "%s, rerun (%s): %s" % (desc, f["how"], d))
            for r in rels:
                sim.check(meaning(r, fs.content(r)) == files[r], "rerun-file/" + r, lambda: "%s: after the rerun %s differs" % (desc, r))
                old[r] = files[r]
            held = seams.released(sim)
            sim.check(not held, "not-released", lambda: "after a finished fit, still held: %s" % held)
            sim.stats["reruns"] += 1
    log_results(sim, "rerun", res2d(w.fit))


def sys_out():
    import sys
    return sys.stdout.closed, sys.stderr.closed


def nontrivial(case, r):
    return bool(r["fired"])
