"""C07: every recorded sample is a valid point with its true log-probability."""
import pickle

from props.common import *
from props import common

ID = "C07"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 4000
RULE = ("a case is one seeded 2D fit (any choice of free parameters, bounds, prior, worker count and task schedule; evaluations, other "
        "models and failing or interrupted runs before it, possibly kinematic profiles or priors that are not finite in places); every "
        "recorded burn-in and sampling step, and direct evaluations at points inside, outside and on the bounds in a seeded order, are "
        "recomputed by the reference model on independently prepared data; non-trivial: several workers, a fault, a custom prior or profile, "
        "other than the default free parameters, or a dispersion below the sampling limit")
STATES = "distinct (free parameters, prior, profile, workers, fault, upsampled and direct points both seen?) tuples"
ASSUMPTIONS = ["log-probabilities agree with the reference to 1e-6 of the summed terms",
               "starting positions may have zero probability, but moves to such points are never accepted",
               "a point exactly on a bound may count as inside or outside",
               "dispersions below 4 km/s without the dispersion floor only have to give no NaN"]
SIMPLE = [("cfg.nsub", 1), ("cfg.psf_type", "Gaussian"), ("cfg.ncpu", 1), ("cfg.linked", "none"), ("cfg.nburn", 0), ("custom", None),
          ("fault", None), ("before", []), ("extra", None)]


class NanVel(object):
    """A rotation curve that is not finite for some parameters."""

    def __init__(self, lim, val):
        self.theta, self.name, self.lim, self.val, self.n_params = np.array([0., 0.]), "NanVel", lim, val, 2

    def vel(self, r, z):
        v = 2. / np.pi * self.theta[0] * np.arctan(r / self.theta[1])
        if np.ndim(self.theta[0]) == 0 and abs(self.theta[0]) > self.lim:
            v = v + self.val
        return v


class Prior(object):
    """A user-defined prior: Gaussian in every parameter, and not finite in part of the range."""

    def __init__(self, theta, vary, bounds, kind, lim):
        self.theta, self.theta_vary, self.theta_bounds, self.kind, self.lim = theta, vary, bounds, kind, lim
        self.name = "SimPrior"

    def log_prior(self, theta_fitting=None):
        t = np.asarray(theta_fitting, dtype=float)
        b = [x for x, v in zip(self.theta_bounds, self.theta_vary) if v]
        for x, (lo, hi) in zip(t, b):
            if not lo <= x <= hi:
                return -np.inf
        u = np.array([(x - lo) / (hi - lo) for x, (lo, hi) in zip(t, b)])
        if self.kind != "gauss" and u[0] > self.lim:
            return {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[self.kind]
        return float(-.5 * (((u - .4) / .2) ** 2).sum())


def warm(misfit):
    common.warm2d(misfit)


def point(rng, c):
    """A point to evaluate directly: [kind, free values]."""
    th = world.random_theta(rng, c)
    free = [float(x) for x in world.free_theta(c, th)]
    kind = rng.choice(["in", "in", "in", "out", "nan", "edge"])
    b = [x for x, v in zip(bounds(c), c["vary"]) if v]
    j = rng.randrange(len(free))
    if kind == "out":
        lo, hi = b[j]
        free[j] = rng.choice([lo - 1e-3 * (hi - lo), hi + 1e-3 * (hi - lo), hi + 3. * (hi - lo), lo - 3. * (hi - lo)])
    elif kind == "edge":
        free[j] = rng.choice(b[j])
    elif kind == "nan":
        free[j] = rng.choice([float("nan"), float("inf"), -float("inf")])
    return [kind, [repr(x) for x in free]]


def bounds(c):
    return [[-c["va_bound"], c["va_bound"]], [0., c["rt_bound"]], list(c["sig_bounds"]), [-.8, .8],
            [c["z"] - .0012, c["z"] + .0012]]


def gen(rng, tier, i):
    c = world.gen_cfg(rng, cont=rng.random() < .06)
    if rng.random() < .5:
        v = [rng.random() < .6 for _ in range(5)]
        if not any(v):
            v[rng.randrange(5)] = True
        c["vary"] = v
        nf = sum(v)
        c["nwalk"] = max(2 * nf + rng.choice([0, 2]), 4)
        if c["linked"] in ("pair", "two") and not (v[0] and v[1]) or nf < 3:
            c["linked"] = "none"
        if rng.random() < .3:
            c["theta0"][3] = round(rng.uniform(-.5, .5), 3)
    if rng.random() < .25:        # tight bounds: many moves leave them
        c.update(va_bound=round(rng.uniform(60, 250), 1), rt_bound=round(rng.uniform(.2, .7), 2))
        c["theta0"][0] = round(c["va_bound"] * .6, 1)
        c["theta0"][1] = round(c["rt_bound"] * .6, 3)
    c.update(ncpu=rng.choice([1, 1, 2, 3, 5]), nburn=rng.choice([0, 1, 2, 3]), nstep=rng.choice([2, 3, 4, 6]))
    custom = rng.choice([None, None, None, "vel-nan", "vel-inf", "prior-gauss", "prior-nan", "prior-inf", "prior--inf"])
    fault = None
    if rng.random() < .3:
        fault = dict(kind=rng.choice(["eval", "eval", "line"]), u=round(rng.random(), 4),
                     exc=rng.choice(["RuntimeError", "KeyboardInterrupt", "MemoryError"]))
    before = [point(rng, c) for _ in range(rng.choice([0, 0, 2, 4]))]
    return dict(cfg=c, custom=custom, lim=round(rng.uniform(.35, .8), 3), fault=fault, before=before,
                points=[point(rng, c) for _ in range(rng.randint(2, 6))],
                append=rng.random() < .2, same=rng.random() < .6, extra=rng.choice([None, None, "other", "ifu"]))


def make(misfit, case, d, name="fit"):
    c = case["cfg"]
    kw = {}
    k = case["custom"] or ""
    if k.startswith("vel"):
        kw["kinProfile"] = misfit.model.kin_classes.KinProfile(
            theta_names=None, velProfile=NanVel(case["lim"] * c["va_bound"], {"nan": np.nan, "inf": np.inf}[k[4:]]),
            dispProfile=misfit.model.kin_classes.DispConstProfile())
    if k.startswith("prior"):
        s = world.settings(misfit, c)
        kw.update(settings=s, thetaPrior=Prior(np.array(s.theta), np.array(s.theta_vary), bounds(c), k[6:], case["lim"]))
    w = world.build(misfit, dict(c, prior="auto") if k.startswith("prior") else c, d, ("h5", "log"), name, **kw)
    w.mcmc.overwrite = not case["append"]
    return w


class Expect(object):
    """Independent log-probabilities."""

    def __init__(self, case, spec):
        self.case, self.c, self.spec = case, case["cfg"], spec
        self.cache = {}
        k = case["custom"] or ""
        self.prior = Prior(None, self.c["vary"], bounds(self.c), k[6:], case["lim"]) if k.startswith("prior") else None
        self.vlim = case["lim"] * self.c["va_bound"] if k.startswith("vel") else None
        s = spec
        with np.errstate(all="ignore"):
            self.size = float(np.abs(np.log10(2. * np.pi * s.flux_err ** 2) * s.spec_mask).sum())
        self.up = [0, 0]
        self.slack = {}

    def __call__(self, free):
        key = tuple(float(x) for x in free)
        if key not in self.cache:
            self.cache[key] = self.value(key)
        return self.cache[key]

    def value(self, free):
        c = self.c
        for x, b in zip(free, [b for b, v in zip(bounds(c), c["vary"]) if v]):
            if not (b[0] <= x <= b[1]):
                return -np.inf
        pr = 0.
        if self.prior is not None:
            pr = self.prior.log_prior(np.array(free))
            if not np.isfinite(pr):
                return -np.inf
        th = world.full_theta(c, free)
        dw = np.average(np.diff(np.asarray(self.spec.wave)))
        lim = dw / (self.spec.restwave_arr[0] * (1. + th[4])) * refmodel.C_KMS / 2.35
        if th[1] == 0. or (not c["floor"] and abs(th[2]) < 4.):
            return None                          # no turnover, or narrower than any sampling: not a meaningful model
        if self.vlim is not None and abs(th[0]) > self.vlim:
            return -np.inf
        if c["adaptive"]:
            if abs(abs(th[2]) / lim - 1.) < 1e-6:
                return None                      # on the switch between two samplings
            self.up[int(abs(th[2]) < lim)] += 1
        s = self.spec
        with np.errstate(all="ignore"):
            m = refmodel.forward(world.refparams(c), th, np.asarray(s.wave), s.flux.shape[0], s.m0,
                                 np.asarray(s.restwave_arr), np.asarray(s.flux_ratio_arr))
            ms = refmodel.scaled(m, s)
            v = refmodel.loglike(ms, s)
            # rows holding only the rounding errors of the convolution are scaled to the data, too
            noise = np.abs(m).max(axis=1) < 1e-9 * np.abs(m).max()
            t = s.spec_mask * s.fitting_weight_matrix * ((np.abs(s.flux) + np.abs(ms)) / s.flux_err) ** 2
            self.slack[tuple(free)] = float(t[noise].sum())
        return v + pr if np.isfinite(v) else -np.inf

    def agrees(self, got, free):
        want = self(free)
        if want is None:
            return True
        if not np.isfinite(want):
            return got == want
        return bool(np.isfinite(got) and abs(got - want) <=
                    1e-6 * (abs(want) + self.size) + self.slack.get(tuple(float(x) for x in free), 0.))


def prepared(misfit, c):
    def go(s):
        w = world.build(misfit, dict(c, prior="auto"), s.dir, ())
        p = w.gal.spec2D
        return {k: getattr(p, k) for k in ("flux", "flux_err", "spec_mask", "fitting_weight_matrix", "wh_nosky", "wave", "m0",
                                           "restwave_arr", "flux_ratio_arr")}
    return go


class Spec(object):
    pass


def run(misfit, case, sim):
    from misfit.fit import fit_core
    c = case["cfg"]
    spec = Spec()
    spec.__dict__.update(sub_run(sim, "prepare", prepared(misfit, c)))
    seams.install_all(sim)
    want = Expect(case, spec)
    w = sim.sut(make, misfit, case, sim.dir)
    lnprob = fit_core.lnprob

    def direct(fit, pts, tag):
        for kind, vals in pts:
            free = np.array([float(x) for x in vals])
            given = free.copy()
            with np.errstate(all="ignore"):
                got = sim.sut(lnprob, free, fit)
            sim.check(np.array_equal(free, given, equal_nan=True), "argument-changed", lambda: "%s: lnprob changed its argument" % tag)
            sim.check(not np.isnan(got), "nan", lambda: "%s: log-probability NaN at %s" % (tag, vals))
            if kind == "edge" and got == -np.inf:
                continue
            sim.check(want.agrees(got, free), "direct-value", lambda: "%s: log-probability %r at %s (%s), should be %r" % (
                tag, got, vals, kind, want(free)))
            sim.stats["direct-points"] += 1

    sim.sut(w.fit.setup_model)
    direct(w.fit, case["before"], "before the run")
    if case["extra"] == "other":      # another model of the same galaxy, evaluated elsewhere
        m = misfit.model.KinModel2D(w.gal, thetaSettings=world.settings(misfit, c), kinProfile=misfit.KinProfileFiducial(),
                                    intensityProfile=world.intensity(misfit, c, w.gal), kinModelOptions=world.model_options(misfit, c))
        sim.sut(m.make_model, galaxy=w.gal, instrument=w.inst, theta_fitting=world.free_theta(c, c["true"][:3] + [0., c["z"]]))
    elif case["extra"] == "ifu" and c["pad"] <= 1.:
        try:
            w.fit.kinModel.update_3D_int_model(world.free_theta(c, c["true"][:3] + [0., c["z"]]))
        except Exception:
            pass
    np.random.seed(c["seed"])
    st = np.random.get_state()
    ft = case["fault"]
    kind = None
    if ft is not None:
        tr = seams.LineTracer(sim, files=("misfit/fit/fit_core.py", "misfit/model/", "misfit/general/"))
        if ft["kind"] == "line":
            n = 600 + 260 * c["nwalk"] * (c["nburn"] + c["nstep"])
            _, e = sim.attempt(tr.run, w.fit.run_mcmc, int(ft["u"] * n), ft["exc"])
        else:
            n = c["nwalk"] * (c["nburn"] + c["nstep"] + 1)
            sim.arm("eval", int(ft["u"] * n), exc=ft["exc"])
            _, e = sim.attempt(w.fit.run_mcmc)
        if e is not None:
            sim.check(core.is_injected(e), "unexpected-error", lambda: "interrupted run: %r" % e)
            kind = ft["kind"]
        e = None
        sim.disarm()
        for f in list(sim.h5_open):
            try:
                f.close()
            except Exception:
                pass
        core.collect()
        if kind is not None:
            if not case["same"]:
                w = sim.sut(make, misfit, case, sim.dir)
                sim.sut(w.fit.setup_model)
            np.random.set_state(st)
            sim.sut(w.fit.run_mcmc)
    else:
        sim.sut(w.fit.run_mcmc)
    s = w.fit.sampler_dict
    p = w.mcmc.filename_sampler_h5
    b = read_h5(p, "burnin_mcmc")
    m = read_h5(p, "mcmc")
    sim.check(same(m["chain"], np.swapaxes(s["chain"], 0, 1), 0.), "h5-differs", "the h5 file and the sampler hold different samples")
    for name, ch, lp in (("burn-in", b and b["chain"], b and b["lnprob"]), ("sampling", m["chain"], m["lnprob"]),
                         ("in memory", np.swapaxes(s["chain"], 0, 1), np.swapaxes(s["lnprobability"], 0, 1))):
        if ch is None:
            continue
        sim.check(not np.isnan(lp).any() and not (lp == np.inf).any(), "nan", lambda: "%s: log-probabilities %s" % (name, lp))
        bb = np.array([x for x, v in zip(bounds(c), c["vary"]) if v])
        sim.check(((ch >= bb[:, 0] - 1e-12 * np.abs(bb[:, 0])) & (ch <= bb[:, 1] + 1e-12 * np.abs(bb[:, 1]))).all(), "out-of-bounds",
                  lambda: "%s: samples outside the bounds: %s" % (name, ch[((ch < bb[:, 0]) | (ch > bb[:, 1])).any(axis=2)][:3]))
        for j in range(len(ch)):
            for k in range(ch.shape[1]):
                sim.check(want.agrees(lp[j, k], ch[j, k]), "recorded-value", lambda: (
                    "%s step %d walker %d: recorded log-probability %r at %s, should be %r" % (name, j, k, lp[j, k], ch[j, k].tolist(),
                                                                                         want(ch[j, k]))))
                if j > 0 and kind is None and not (ch[j, k] == ch[j - 1, k]).all():
                    sim.check(np.isfinite(lp[j, k]), "accepted-impossible", lambda: "%s step %d walker %d moved to probability zero" % (
                        name, j, k))
                sim.stats["samples"] += 1
    fl, fp = np.asarray(s["flatchain"])[:, :sum(c["vary"])], np.asarray(s["flatlnprobability"])
    for x, l in zip(fl, fp):
        sim.check(want.agrees(l, x), "recorded-value/flat", lambda: "flattened sample %s: %r, should be %r" % (x.tolist(), l, want(x)))
    direct(w.fit, case["points"], "after the run")
    direct(pickle.loads(pickle.dumps(w.fit)), case["points"][:2], "in a copy sent to a worker")
    sim.sut(w.fit.analyze_results)
    fl, fp = np.asarray(w.fit.sampler_dict["flatchain"])[:, :sum(c["vary"])], np.asarray(w.fit.sampler_dict["flatlnprobability"])
    lo = bounds(c)[2][0]
    if not c["absval"]:
        for x, l in zip(fl, fp):
            sim.check(want.agrees(l, x), "recorded-value/analysed", lambda: "analysed sample %s: %r, should be %r" % (x.tolist(), l, want(x)))
    log_results(sim, "samples", dict(chain=m["chain"], lnprob=m["lnprob"]))
    sim.states.add((tuple(c["vary"]), c["prior"], case["custom"], c["ncpu"], kind, want.up[0] > 0, want.up[1] > 0))
    sim.stats["upsampled-points"] += want.up[1]
    sim.stats["impossible-points"] += sum(1 for v in want.cache.values() if v == -np.inf)


def nontrivial(case, r):
    c = case["cfg"]
    return bool(c["ncpu"] > 1 or r["fired"] or case["custom"] or c["vary"] != [True, True, True, False, False] or
                r["stats"].get("upsampled-points"))
