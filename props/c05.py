"""C05: reloading or re-analysing a fit reproduces its results."""
import pickle

from props.common import *
from props import common

ID = "C05"
LEVEL = "exploration"
QUICK, THOROUGH = 260, 3000
RULE = ("a case is one seeded fit with all result files and a seeded sequence of 3-9 operations on it: analyse, reload sampler / "
        "best fit / results, save, re-save, evaluate, plot, refit, interrupted analysis, failing save, new objects, new processes, "
        "a rerun with other random numbers over the same files; the results are compared with those of the fit that made the files after every one; non-trivial: at least two of them re-analyse or reload")
STATES = "distinct (operation, two operations before it, in a new process?) tuples"
ASSUMPTIONS = ["a new process is a forked copy with freshly built objects, in a few runs a new interpreter", "results agree to 1e-9"]
SIMPLE = [("cfg.nsub", 1), ("cfg.psf_type", "Gaussian"), ("cfg.nburn", 0), ("cfg.linked", "none"), ("cfg.absval", False)]
OPS = ["analyze", "analyze", "chain", "reload", "reload", "reload-save", "reload-plot", "sampler", "bestfit", "save", "eval", "plot", "setup",
       "refit", "new-reload", "new-bestfit", "new-bestfit", "copy", "cut", "cut",
       "cut-save", "other", "other"]


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    c = world.gen_cfg(rng, cont=rng.random() < .05)
    def seq(n):
        return [dict(op=rng.choice(OPS), th=world.random_theta(rng, c), u=round(rng.random(), 4),
                     exc=rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "RuntimeError"]),
                     n=rng.randrange(8), err=rng.choice(["EIO", "ENOSPC"])) for _ in range(n)]
    ops = seq(rng.randint(3, 7))
    for _ in range(rng.choice([0, 1, 1, 2])):
        ops.insert(rng.randrange(len(ops) + 1), dict(op="process", u=round(rng.random(), 4), ops=[dict(op=rng.choice(["new-reload", "new-bestfit"]),
                                                                           th=[], u=0.)] + seq(rng.randint(0, 4))))
    big = None
    if rng.random() < .05:         # as many samples as a real fit has
        big = [rng.choice([100, 200]), rng.choice([60, 110, 200])]
        ops = ops[:4]
        for o in ops + [x for o in ops for x in o.get("ops", [])]:
            if o["op"] in ("refit", "other", "cut"):
                o["op"] = "reload"
    fresh = rng.randrange(1, 1 << 20) if rng.random() < .02 else None   # read once more in another interpreter
    if fresh:
        ops = ops[:3]
    return dict(cfg=c, ops=ops, big=big, fresh=fresh)


def fresh(misfit, sim, c):
    """What a new interpreter with its own freshly built objects reads from the files of a finished fit."""
    a, b = world.build(misfit, c, sim.dir), world.build(misfit, c, sim.dir)
    sim.sut(a.fit.reload_results)
    sim.sut(b.fit.reload_bestfit_model)
    out = dict(res2d(a.fit))
    for k, m in (("a", a.fit), ("b", b.fit)):
        out[k] = dict(best=np.array(m.mcmc_results.bestfit_theta), err1=np.array(m.mcmc_results.err_theta_1sig),
                      err2=np.array(m.mcmc_results.err_theta_2sig), opp=np.array(m.mcmc_results.percent_oppsign),
                      names=list(m.mcmc_results.theta_names))
    return out


def load_files(w):
    out = {}
    with open(w.mcmc.filename_sampler, "rb") as f:
        d = pickle.load(f)
    out["sampler"] = {k: np.array(d[k]) for k in ("chain", "lnprobability", "flatchain", "flatlnprobability", "acceptance_fraction")}
    with open(w.mcmc.filename_bestfit_model, "rb") as f:
        b = pickle.load(f)
    m = b.mcmc_results
    out["bestfit"] = dict(best=np.array(m.bestfit_theta), err1=np.array(m.err_theta_1sig), err2=np.array(m.err_theta_2sig),
                          opp=np.array(m.percent_oppsign), flux=np.array(b.galaxy.spec2D.flux),
                          names=list(m.theta_names), keys=sorted(k for k in b.__dict__))
    return out


def run(misfit, case, sim):
    c = case["cfg"]
    seams.install_all(sim)
    w = world.build(misfit, c, sim.dir)
    np.random.seed(c["seed"])
    sim.sut(w.fit.fit)
    if case.get("big"):
        with open(w.mcmc.filename_sampler, "rb") as fh:
            d = pickle.load(fh)
        with open(w.mcmc.filename_sampler, "wb") as fh:
            pickle.dump(common.record(d, *common.enlarge(d["chain"], c["seed"], *case["big"])), fh)
        sim.sut(w.fit.reload_sampler)
        sim.sut(w.fit.reload_results, resave_bestfit=True)
    ref = res2d(w.fit)
    files = load_files(w)
    raw_cols = ref["chain"].shape[2]
    names = list(w.fit.mcmc_results.theta_names)
    sim.check(ref["flatchain"].shape[1] == raw_cols + 4, "columns", lambda: "columns %s for %d fitted parameters" % (
        ref["flatchain"].shape, raw_cols))
    state = dict(fit=w.fit, w=w, full=True, seed=c["seed"])
    evals = {}
    hist = []

    def build():
        x = world.build(misfit, c, sim.dir)
        state.update(fit=x.fit, w=x)

    def rerun():
        """The same fit is run with other random numbers, and its files are read again."""
        state["seed"] = seed = (state["seed"] + 1) % (1 << 31)
        x = world.build(misfit, c, sim.dir)
        if os.path.exists(x.mcmc.filename_sampler_h5):
            os.remove(x.mcmc.filename_sampler_h5)
        np.random.seed(seed)
        sim.sut(x.fit.fit)
        ref.clear()
        ref.update(res2d(x.fit))
        files.clear()
        files.update(load_files(x))

    def reread(u):
        if u < .5:
            build()
        else:
            sim.sut(state["fit"].reload_sampler)
        sim.sut(state["fit"].reload_results)
        state["full"] = True

    def compare(op):
        f = state["fit"]
        m = f.mcmc_results
        got = dict(best=np.array(m.bestfit_theta), err1=np.array(m.err_theta_1sig), err2=np.array(m.err_theta_2sig),
                   opp=np.array(m.percent_oppsign), best_free=np.array(m.bestfit_theta_fitting))
        if f.sampler_dict is not None and state["full"]:
            got["flatchain"] = np.array(f.sampler_dict["flatchain"])
            got["chain"] = np.array(f.sampler_dict["chain"])
            got["lnprob"] = np.array(f.sampler_dict["lnprobability"])
        if f.kinModel is not None and f.kinModel.bestfit is not None:
            got["model"] = np.array(f.kinModel.bestfit.model)
            got["model_theta"] = np.array(f.kinModel.bestfit.theta, dtype=float)
        sim.event("compare", op, digest(got))
        r = differs(got, ref, keys=list(got))
        sim.check(r is None, "differs-after/" + op, lambda: "after %s: %s" % (" ".join(hist), r))
        sim.check(list(m.theta_names) == names, "names-after/" + op, lambda: "after %s: parameter names %s" % (hist, m.theta_names))
        now = load_files(w)
        for k in files:
            r = differs({x: y for x, y in now[k].items() if x not in ("names", "keys")},
                        {x: y for x, y in files[k].items() if x not in ("names", "keys")})
            if k == "bestfit" and r is None and (now[k]["names"], now[k]["keys"]) != (files[k]["names"], files[k]["keys"]):
                r = "attributes %s" % (now[k]["keys"],)
            sim.check(r is None, "saved-%s-differs/%s" % (k, op), lambda: "after %s the saved %s file differs: %s" % (" ".join(hist), k, r))

    def step(o, inproc):
        f = state["fit"]
        op = o["op"]
        sim.states.add((op, tuple(hist[-2:]), inproc))
        hist.append(op)
        s = sim.sut
        if op == "process":
            def child():
                n = sim.nevents
                for x in o["ops"]:
                    step(x, True)
                return sim.nevents - n, sim.hash(), sim.states, state["seed"], ref, files
            n, h, st, seed, r, fl = sim.isolated(child)
            sim.event("process", n, h)
            sim.states |= st
            if seed != state["seed"]:       # the other process ran the fit again
                state["seed"] = seed
                ref.clear(), ref.update(r)
                files.clear(), files.update(fl)
                hist.append("reread")
                reread(o["u"])
                compare("reread")
            return
        if op in ("setup", "refit", "eval", "save", "plot", "analyze", "chain", "reload", "reload-save", "reload-plot", "copy", "cut",
                  "cut-save") and f.kinModel is None:
            s(f.setup_model)
        if op == "analyze":
            s(f.analyze_results)
            state["full"] = True
        elif op == "chain":
            if f.sampler_dict is None:
                s(f.reload_sampler)
            s(f.get_chain_results)
            state["full"] = True
        elif op.startswith("reload"):
            s(f.reload_results, doPlot=op == "reload-plot", resave_bestfit=op == "reload-save")
            state["full"] = True
        elif op == "sampler":
            s(f.reload_sampler)             # as saved: not analysed yet
            state["full"] = False
        elif op == "bestfit":
            s(f.reload_bestfit_model)
        elif op == "save":
            s(f.save_bestfit_model)
        elif op == "eval":
            th = o["th"] or list(ref["model_theta"])
            s(f.update_model if f.kinModel.aperModel is not None else f.make_model, world.free_theta(c, th))
            k = repr([float(x) for x in th])
            v = np.array(f.kinModel.model)
            if k in evals:
                sim.check(same(v, evals[k], 1e-9), "evaluation-differs", lambda: "after %s an evaluation differs" % hist)
            evals[k] = v
            r = ref_model(c, f.galaxy.spec2D, th, model=v)
            sim.check(same(v, r, 1e-6, 1e-7 * np.abs(r).max()), "evaluation-wrong", lambda: "after %s an evaluation is wrong" % hist)
        elif op == "plot":
            if not state["full"] or f.sampler_dict is None:
                s(f.analyze_results)
                state["full"] = True
            s(f.plot_results)
        elif op == "setup":
            s(f.setup_model)
        elif op == "refit":
            if f.mcmcOptions.filename_sampler_h5 and os.path.exists(f.mcmcOptions.filename_sampler_h5):
                os.remove(f.mcmcOptions.filename_sampler_h5)
            np.random.seed(state["seed"])
            s(f.fit)
            state["full"] = True
        elif op == "other":
            rerun()
            reread(o["u"])
        elif op == "new-reload":
            build()
            s(state["fit"].reload_results)
            state["full"] = True
        elif op == "new-bestfit":
            build()
            s(state["fit"].reload_bestfit_model)
            state["full"] = False
        elif op == "cut":                   # an analysis is interrupted at some line, then done again
            def count():
                tr = seams.LineTracer(sim)
                sim.attempt(tr.run, f.analyze_results)
                return tr.n
            tr = seams.LineTracer(sim)
            _, e = sim.attempt(tr.run, f.analyze_results, int(o["u"] * sim.isolated(count)), o["exc"])
            sim.check(e is None or core.is_injected(e), "unexpected-error", lambda: "%s at %s: %r" % (o["exc"], tr.where, e))
            sim.check(e is not None or o["exc"] == "RuntimeError", "fault-swallowed", lambda: "interrupt at %s" % tr.where)
            hist[-1] += "@%s" % tr.where
            s(f.analyze_results)
            state["full"] = True
        elif op == "cut-save":
            sim.arm("fs", o["n"], err=o["err"])
            _, e = sim.attempt(f.save_bestfit_model)
            sim.disarm()
            sim.check(e is None or core.is_injected(e), "unexpected-error", lambda: "failing save: %r" % (e,))
            s(f.save_bestfit_model)
        elif op == "copy":
            state["fit"] = s(f.copy)
        compare(op)

    for o in case["ops"]:
        step(o, False)
    if case.get("fresh"):
        got = common.fresh_run(sim, case["fresh"], ID, "fresh", (c,), sim.dir)
        r = differs(got, ref, keys=list(ref))
        sim.check(r is None, "differs-in-new-interpreter", lambda: "after %s, read in another interpreter (PYTHONHASHSEED=%d): %s" % (
            hist, case["fresh"], r))
        for x in ("a", "b"):
            sim.check(got[x]["names"] == names, "names-in-new-interpreter", lambda: "%s: %s" % (x, got[x]["names"]))
            r = differs(got[x], ref, keys=["best", "err1", "err2", "opp"])
            sim.check(r is None, "differs-in-new-interpreter", lambda: "after %s, %s in another interpreter: %s" % (
                hist, "reload_bestfit_model" if x == "b" else "reload_results", r))


def nontrivial(case, r):
    ops = [o["op"] for o in case["ops"]]
    return sum(o in ("analyze", "chain", "process", "refit") or "reload" in o or "bestfit" in o for o in ops) >= 2
