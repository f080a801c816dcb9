"""C11: best-fit values and uncertainties always match the recorded samples."""
import pickle

from scipy.stats import gaussian_kde

from props.common import *
from props import common

ID = "C11"
LEVEL = "exploration"
QUICK, THOROUGH = 260, 4000
RULE = ("a case is one seeded configuration (free, fixed and linked parameters, absolute dispersions) and a history of 3-8 operations on up to two "
        "fits sharing objects: sampling, analysing again, reloading samples (this fit's or other recorded chains: several modes, one sign or both, "
        "skewed, few or many samples), saving, evaluating, changing linked sets, interrupted and failing analyses; every reported number is "
        "recomputed from the samples after each; non-trivial: at least two analyses, or another recorded chain")
STATES = "distinct (operation, two operations before, free parameters, linked sets, kind of chain) tuples"
ASSUMPTIONS = ["a best-fit value is taken as a maximum of the smoothed distribution if it exceeds its surroundings (a tenth of the smoothing length "
               "away) to 0.05% (0.1% for linked sets)", "linked sets do not overlap", "samples spread over a finite range in every fitted parameter"]
SIMPLE = [("cfg.nsub", 1), ("cfg.psf_type", "Gaussian"), ("cfg.nburn", 0), ("cfg.absval", False), ("two", False)]
OPS = ["analyze", "analyze", "reload", "reload", "chain", "chain", "chain", "fit", "save", "eval", "linked", "cut", "cut", "read", "new", "bestfit",
       "pickle", "abs"]
KINDS = ["normal", "normal", "wide", "two", "straddle", "skew", "uniform", "tail"]
Q1, Q2 = (15.865, 84.135), (2.275, 97.725)


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    c = world.gen_cfg(rng, nsub=1)
    if rng.random() < .3:
        c["vary"] = rng.choice([[True, True, True, True, True], [False, True, True, True, False], [True, True, False, False, True],
                                [True, False, True, False, True], [False, False, True, True, True], [True, True, True, False, True]])
        c["linked"] = "none"
        c["nwalk"] = max(8, 2 * sum(c["vary"]))
    nf = sum(c["vary"])
    ops = [dict(op=rng.choice(OPS), f=rng.randrange(2), u=round(rng.random(), 5), v=round(rng.random(), 5), seed=rng.randrange(1 << 30),
                kinds=[rng.choice(KINDS) for _ in range(5)], nwalk=rng.choice([8, 12, 20]), nstep=rng.choice([2, 5, 12, 25]),
                sign=rng.choice([1, 1, -1]), th=world.random_theta(rng, c), exc=rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "RuntimeError"]),
                link=rng.choice(links(nf)), err=rng.choice(["EIO", "EACCES"])) for _ in range(rng.randint(3, 8))]
    if rng.random() < .06:         # as many samples as a real fit has
        ops = ops[:3]
        ops[0].update(op="chain", nwalk=rng.choice([100, 200]), nstep=rng.choice([60, 110, 250]))
    return dict(cfg=c, ops=ops, two=rng.random() < .35, link=rng.choice(links(nf)), first=rng.choice(["fit", "fit", "chain"]))


def links(nf):
    out = [None]
    if nf >= 2:
        out += ["all", [[0, 1]]]
    if nf >= 3:
        out += [[[0, 1], [2]], [[0, 2]], [[2, 1]], [[0, 1, 2]], [[0], [1, 2]]]
    if nf >= 4:
        out += [[[0, 1], [2, 3]], [[3, 0], [1]]]
    return out


def as_links(l):
    if l is None:
        return None
    if l == "all":
        return ["all"]
    return [list(x) for x in l] if len(l) > 1 else np.array(l)


def synthetic(o, c, nf):
    """Another recorded chain: walkers x steps x free parameters."""
    rs = np.random.RandomState(o["seed"] % (1 << 31))
    nw, ns = max(o["nwalk"], 2 * nf), o["nstep"]
    cen = [o["sign"] * rs.uniform(60, 250), rs.uniform(.2, .8), rs.uniform(25, 90), rs.uniform(-.5, .5), c["z"] + rs.uniform(-5e-4, 5e-4)]
    wid = [rs.uniform(5, 30), rs.uniform(.02, .1), rs.uniform(4, 15), rs.uniform(.03, .2), rs.uniform(2e-5, 2e-4)]
    out = []
    for k in range(5):
        if not c["vary"][k]:
            continue
        x = rs.standard_normal((nw, ns))
        kind = o["kinds"][k]
        if kind == "wide":
            x *= 3.
        elif kind == "two":
            x = x * .7 + np.where(rs.random_sample(x.shape) < rs.uniform(.2, .8), -3., 3.)
        elif kind == "skew":
            x = np.exp(x * .6)
        elif kind == "uniform":
            x = rs.uniform(-2, 2, x.shape)
        elif kind == "tail":
            x = x * np.where(rs.random_sample(x.shape) < .1, 5., 1.)
        v = cen[k] + wid[k] * x
        if kind == "straddle" and k != 4:
            v = v - cen[k] * rs.uniform(.9, 1.1)
        if k == 1:
            v = np.abs(v) + .02
        if k == 2 and kind == "two":
            v = v * np.where(rs.random_sample(v.shape) < .5, -1., 1.)
        out.append(v)
    chain = np.array(out).transpose(1, 2, 0)
    lnp = -rs.chisquare(3, size=(nw, ns))
    if rs.random_sample() < .3:         # walkers that were long at an invalid start position
        for k in rs.choice(nw, size=max(1, nw // 5), replace=False):
            lnp[k, :rs.randint(1, ns + 1)] = -np.inf
    return chain, lnp


def percentiles(x, q):
    x = np.sort(x, axis=0)
    p = (len(x) - 1) * q / 100.
    lo = int(p)
    hi = min(lo + 1, len(x) - 1)
    return x[lo] + (p - lo) * (x[hi] - x[lo])


def at_maximum(kde, b, h, tol=5e-4):
    """Is `b` a local maximum of the density to within the tolerance?"""
    b = np.atleast_1d(b).astype(float)
    h = np.atleast_1d(h)
    f0 = kde(b[:, None])[0]
    if len(b) == 1:
        dirs = [np.array([.1]), np.array([-.1])]
    else:
        dirs = [s * .1 * e for e in np.eye(len(b)) for s in (1, -1)]
    worst = max(kde((b + d * h)[:, None])[0] for d in dirs)
    return worst <= f0 * (1 + tol), f0, worst


def check_results(sim, c, fit, raw, absd, link, what, sampler=True):
    """Recompute all that is reported from the recorded samples `raw` (walkers, steps, free parameters)."""
    m = fit.mcmc_results
    nf = sum(c["vary"])
    flat = np.array(raw).reshape(-1, nf)
    free = [k for k in range(5) if c["vary"][k]]
    if absd and 2 in free:
        flat[:, free.index(2)] = np.abs(flat[:, free.index(2)])
    th = [np.full(len(flat), float(t)) for t in fixed(c)]
    for j, k in enumerate(free):
        th[k] = flat[:, j]
    vel = lambda r: 2. / np.pi * th[0] * np.arctan(r / th[1])
    re = c["re_mass"]
    want = np.column_stack([flat, vel(re), vel(2.2 / 1.676 * re), th[2], th[2]])
    n = want.shape[1]
    if sampler:
        s = fit.sampler_dict
        got = np.array(s["flatchain"])
        sim.check(got.shape == want.shape, "columns", lambda: "%s: samples of shape %s, expected %s" % (what, got.shape, want.shape))
        for j in range(n):
            sim.check(np.allclose(got[:, j], want[:, j], rtol=1e-9, atol=1e-12), "samples", lambda: "%s: column %d of the samples differs from "
                      "what the recorded samples give by up to %.3g" % (what, j, np.abs(got[:, j] - want[:, j]).max()))
        ch = np.array(s["chain"])
        w = np.array(raw)
        if absd and 2 in free:
            w[..., free.index(2)] = np.abs(w[..., free.index(2)])
        sim.check(same(ch, w, 0.), "chain", lambda: "%s: the recorded chain changed" % what)
    names = ["V_a", "r_t", "sigma0", "m0_shift", "z"]
    best = np.asarray(m.bestfit_theta, float)
    sim.check(best.shape == (n,) and np.isfinite(best).all(), "best-shape", lambda: "%s: best fit %s" % (what, best))
    sim.check(list(m.theta_names)[nf:] == ["V_RE", "V_22", "sigma_RE", "sigma_22"] and len(m.theta_names) == n, "names",
              lambda: "%s: names %s" % (what, m.theta_names))
    sim.check(same(np.asarray(m.bestfit_theta_fitting, float), best[:nf], 0.), "best-free", lambda: "%s: free best fit %s of %s" % (
        what, m.bestfit_theta_fitting, best))
    if absd and c["vary"][2]:
        sim.check(np.all(best[[free.index(2), nf + 2, nf + 3]] >= -1e-3), "negative-dispersion", lambda: "%s: best fit %s" % (what, best))
    # uncertainties
    for err, q, nm in ((m.err_theta_1sig, Q1, "1sig"), (m.err_theta_2sig, Q2, "2sig")):
        err = np.asarray(err, float)
        sim.check(err.shape == (n, 2), "errors-shape", lambda: "%s: %s of shape %s" % (what, nm, err.shape))
        lo, hi = percentiles(want, q[0]), percentiles(want, q[1])
        w = np.column_stack([best - lo, hi - best])
        scale = want.max(axis=0) - want.min(axis=0) + 1e-9 * np.abs(best) + 1e-12
        bad = np.abs(w - err).max(axis=1) > 1e-7 * scale
        sim.check(not bad.any(), nm, lambda: "%s: %s uncertainties of column %d (%s): %s, the samples give %s" % (
            what, nm, int(np.argmax(bad)), "linked %s" % (link,), err[int(np.argmax(bad))], w[int(np.argmax(bad))]))
    opp = np.asarray(m.percent_oppsign, float)
    w = 100. * np.mean(np.sign(best) * want < 0., axis=0)
    sim.check(opp.shape == (n,) and np.allclose(opp, w, atol=1e-9), "opposite-sign", lambda: "%s: opposite-sign percentages %s, the samples give %s" % (
        what, opp, w))
    # maxima
    sets = [] if link is None else [list(range(nf))] if link == "all" else [list(x) for x in link]
    done = set()
    for S in sets:
        done |= set(S)
        if np.any(want[:, S].std(axis=0) == 0.):
            continue
        k = gaussian_kde(want[:, S].T)
        ok, f0, f1 = at_maximum(k, best[S], np.sqrt(np.diag(k.covariance)), 1e-3)
        sim.check(ok, "linked-maximum", lambda: "%s: best fit %s of the linked parameters %s is no maximum: density %.5g, nearby %.5g" % (
            what, best[S], S, f0, f1))
        sim.check(np.all(best[S] >= want[:, S].min(axis=0) - 1e-4) and np.all(best[S] <= want[:, S].max(axis=0) + 1e-4), "range",
                  lambda: "%s: best fit %s of the linked parameters outside of the samples" % (what, best[S]))
    for j in range(n):
        if j in done:
            continue
        x = want[:, j]
        if x.max() - x.min() <= 1e-12 * np.abs(x).max():
            sim.check(abs(best[j] - x[0]) <= 1e-9 * abs(x[0]), "constant", lambda: "%s: column %d is %s, best fit %s" % (what, j, x[0], best[j]))
            continue
        k = gaussian_kde(x)
        h = np.sqrt(k.covariance[0, 0])
        sim.check(x.min() - .01 * h <= best[j] <= x.max() + .01 * h, "range", lambda: "%s: best fit %s of column %d outside of %s - %s" % (
            what, best[j], j, x.min(), x.max()))
        ok, f0, f1 = at_maximum(k, best[j], h)
        sim.check(ok, "maximum", lambda: "%s: best fit %s of column %d is no maximum of the smoothed distribution: density %.6g, nearby %.6g" % (
            what, best[j], j, f0, f1))


def fixed(c):
    t = list(c["theta0"])
    if t[4] is None:
        t[4] = c["z"]
    return t


def direct(misfit, c, best):
    def go(s):
        w = world.build(misfit, c, s.dir, ())
        w.fit.setup_model()
        w.fit.update_model(np.array(best))
        return np.array(w.fit.kinModel.model)
    return go


def run(misfit, case, sim):
    c = dict(case["cfg"], linked="none")
    seams.install_all(sim)
    nf = sum(c["vary"])
    outs = ("sampler", "bestfit")
    kin = misfit.KinProfileFiducial()
    fits = []
    for k in range(2 if case["two"] else 1):
        w = sim.sut(world.build, misfit, c, sim.dir, outs, "fit%d" % k, **({} if k == 0 else dict(kinProfile=kin, kinModelOptions=fits[0].options)))
        if case["two"] and k == 0:
            w.fit.kinProfile = kin
        w.settings.theta_linked_posteriors = as_links(case["link"])
        w.raw = w.saved = None            # samples in memory, and on disk
        w.link, w.setlink, w.abs = case["link"], case["link"], c["absval"]
        w.memabs = False
        w.ana = False
        w.on_disk = None
        fits.append(w)

    def recorded(w):
        """Samples in the file, as a plain array."""
        with open(w.mcmc.filename_sampler, "rb") as f:
            return np.array(pickle.load(f)["chain"])

    def verify(w, what, sampler=True):
        check_results(sim, c, w.fit, w.raw, w.memabs, w.link, what, sampler)
        full = world.full_theta(c, w.fit.mcmc_results.bestfit_theta_fitting) if hasattr(world, "full_theta") else None
        b = w.fit.kinModel.bestfit
        th = fixed(c)
        it = iter(np.asarray(w.fit.mcmc_results.bestfit_theta_fitting, float))
        th = [float(next(it)) if v else float(t) for t, v in zip(th, c["vary"])]
        sim.check(np.allclose(np.asarray(b.theta, float), th, rtol=1e-12, atol=0.), "model-parameters", lambda: "%s: the best-fit model has parameters "
                  "%s, the best fit is %s" % (what, list(b.theta), th))
        key = tuple(np.asarray(w.fit.mcmc_results.bestfit_theta_fitting, float))
        if abs(th[2]) > 4. and th[1] > .02:
            r = ref_model(dict(c, absval=fits[0].options.absvalsigma), w.gal.spec2D, th, model=b.model)
            sim.check(same(np.asarray(b.model), r, 1e-6, 1e-6 * np.abs(r).max()), "model", lambda: "%s: the best-fit model is not the model at %s (max "
                      "difference %.3g of %.3g)" % (what, th, np.abs(np.asarray(b.model) - r).max(), np.abs(r).max()))

    def analysed(w):
        w.memabs = w.memabs or fits[0].options.absvalsigma
        w.ana, w.link = True, w.setlink

    hist = []
    ops = [dict(case["ops"][0], op=case["first"], f=k) for k in range(len(fits))] + case["ops"]
    done = 0
    for j, o in enumerate(ops):
        w = fits[o["f"] % len(fits)]
        f, op = w.fit, o["op"]
        if op not in ("fit", "chain") and w.raw is None:
            continue
        if f.kinModel is None:
            sim.sut(f.setup_model)
        if op == "fit":
            if case["ops"] is not ops and j >= len(fits) and o["u"] > .5:
                continue
            np.random.seed(o["seed"])
            sim.sut(f.fit)
            w.setlink = w.setlink
            w.raw = w.saved = recorded(w)
            w.memabs = False
            analysed(w)
            done += 1
        elif op == "chain":            # other recorded samples
            if w.saved is None:
                np.random.seed(o["seed"])
                sim.sut(f.fit)
            with open(w.mcmc.filename_sampler, "rb") as fh:
                d = pickle.load(fh)
            ch, lnp = synthetic(o, c, nf)
            d = common.record(d, ch, lnp)
            with open(w.mcmc.filename_sampler, "wb") as fh:
                pickle.dump(d, fh)
            w.raw = w.saved = ch.copy()
            w.memabs = False
            if o["u"] < .5:
                sim.sut(f.reload_sampler)
            else:
                f.sampler_dict = None
            sim.sut(f.reload_results, resave_bestfit=o["v"] < .5)
            analysed(w)
            done += 1
        elif op == "analyze":
            sim.sut(f.analyze_results)
            analysed(w)
            done += 1
        elif op == "reload":
            sim.sut(f.reload_sampler)
            w.raw, w.memabs = w.saved, False
            sim.sut(f.reload_results, resave_bestfit=o["v"] < .5)
            analysed(w)
            done += 1
        elif op == "save":
            sim.sut(f.save_bestfit_model)
        elif op == "eval":
            sim.sut(f.update_model, world.free_theta(c, o["th"]))
        elif op == "linked":
            f.theta_linked_posteriors = as_links(o["link"])
            w.settings.theta_linked_posteriors = f.thetaSettings.theta_linked_posteriors = as_links(o["link"])
            w.setlink = o["link"]
            sim.sut(f.analyze_results)
            analysed(w)
            done += 1
        elif op == "abs":
            fits[0].options.absvalsigma = True
            for x in fits:
                if x.fit.kinModelOptions is not fits[0].options:
                    x.fit.kinModelOptions.absvalsigma = True
                if x.raw is not None and x.fit.kinModel is not None:
                    sim.sut(x.fit.analyze_results)
                    analysed(x)
        elif op in ("cut", "read"):
            if op == "cut":
                def count():
                    tr = seams.LineTracer(sim)
                    tr.seen = {}
                    sim.attempt(tr.run, f.analyze_results)
                    return {k: xs if len(xs) < 8 else xs[:3] + xs[-3:] for k, xs in tr.seen.items()}
                seen = sim.isolated(count)
                tr = seams.LineTracer(sim)
                _, e = sim.attempt(tr.run, f.analyze_results, seams.pick_line(seen, o["u"], o["v"]), o["exc"])
                op = "cut %s at %s" % (o["exc"], tr.where)
                sim.check(e is None or core.is_injected(e) or o["exc"] == "RuntimeError", "unexpected-error", lambda: "%s: %r" % (op, e))
                sim.check(e is not None or o["exc"] == "RuntimeError" or tr.where is None, "fault-swallowed", lambda: op)
            else:
                sim.arm("fs", 0, err=o["err"])
                f.sampler_dict = None
                _, e = sim.attempt(f.reload_results)
                sim.disarm()
                sim.check(e is not None and core.is_injected(e), "fault-swallowed", lambda: "a failing read of the samples: %r" % (e,))
                w.raw, w.memabs = w.saved, False
            e = None
            core.collect()
            w.memabs = w.memabs or fits[0].options.absvalsigma
            sim.sut(f.analyze_results)
            analysed(w)
            done += 1
        elif op == "new":
            n = sim.sut(world.build, misfit, c, sim.dir, outs, "fit%d" % fits.index(w), gal=w.gal, inst=w.inst, kinModelOptions=fits[0].options,
                        kinProfile=kin if case["two"] else None)
            n.settings.theta_linked_posteriors = as_links(w.setlink)
            n.raw = n.saved = w.saved
            n.memabs = False
            n.link = n.setlink = w.setlink
            n.ana = False
            if fits[0] is w:
                n.options = fits[0].options
            fits[fits.index(w)] = n
            sim.sut(n.fit.reload_results)
            analysed(n)
            done += 1
            w = n
        elif op == "bestfit":
            sim.sut(f.save_bestfit_model)
            keep = f.mcmc_results
            res = pickle.loads(pickle.dumps(pickle.load(open(w.mcmc.filename_bestfit_model, "rb"))))
            sim.sut(f.reload_bestfit_model)
            sim.check(same(np.asarray(f.mcmc_results.bestfit_theta, float), np.asarray(keep.bestfit_theta, float), 0.), "reloaded", "the reloaded best fit differs")
            w.gal, w.inst, w.settings, w.kin = f.galaxy, f.instrument, f.thetaSettings, f.kinProfile
            check_results(sim, c, f, w.raw, w.memabs, w.link, op, True)
            sim.sut(f.setup_model)
            sim.sut(f.analyze_results)
            analysed(w)
        elif op == "pickle":
            w.fit = sim.sut(f.copy)
            w.gal = w.fit.galaxy
        hist.append(op.split(" ")[0])
        for x in fits:
            if x.ana and x.raw is not None:
                x.fit.kinModel is not None and verify(x, "after %s%s" % ("-".join(hist), "" if x is w else " (the other fit)"))
        sim.states.add((op, tuple(hist[-3:-1]), tuple(c["vary"]), repr(w.link), o["kinds"][0] if op == "chain" else ""))
        sim.event("op", op, digest(np.asarray(w.fit.mcmc_results.bestfit_theta, float)) if w.ana else "")
        if w.fit.sampler_dict is None:
            w.ana = False


def nontrivial(case, r):
    ops = [o["op"] for o in case["ops"]]
    return "chain" in ops or case["first"] == "chain" or sum(x in ("analyze", "reload", "cut", "linked", "new", "read") for x in ops) >= 2
