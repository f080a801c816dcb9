"""C13: diagnostic plots never change or lose results."""
import copy
import pickle
import random

from props.common import *
from props import common
from sim import world1d

ID = "C13"
LEVEL = "exploration"
QUICK, THOROUGH = 110, 2000
RULE = ("a case is the life of one 2D fit (set-up, sampling, analysis, saving, re-analysis, reloading, evaluation) and "
        "sometimes a 1D fit, with plots of every kind between the steps and inside them, plot files failing to be written, "
        "and plots interrupted at a chosen line; non-trivial: at least one plot and one later step")
STATES = "distinct (plot, stage, step before, fault kind, image?, linked sets, free parameters) tuples"
ASSUMPTIONS = ["figures are built for real by matplotlib and corner, but not rasterised: a few bytes are written instead",
               "steps after plots are compared with the same steps, in a process of their own, without any plot",
               "a fit step stopped by its own burn-in plot is repeated from the same random state",
               "interrupts arrive between lines of the package's plotting code"]
STUBS = ["rasterising of figures (a few bytes are written instead)"] + [s for s in common.STUBS if "figure" not in s]
SIMPLE = [("cfg.nsub", 1), ("cfg.linked", "none"), ("cfg.ncpu", 1), ("cfg.psf_type", "Gaussian")]
PLOTS = {"ctor": ["data", "image"], "setup": ["fitted", "image"], "run": ["trace", "fitted", "image"],
         "analyze": ["corner", "corner", "fitted", "results", "trace", "image"]}
PLOTS["save"] = PLOTS["analyze"]
FAULTS = ["none", "none", "none", "ENOSPC", "EIO", "KeyboardInterrupt", "RuntimeError", "nodir", "line", "line"]


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    c = world.gen_cfg(rng, cont=False, nsub=1, ny=rng.choice([8, 9]), nw=rng.choice([9, 10]))
    r = rng.random()
    if r < .15:
        c["vary"] = rng.choice([[True, False, False, False, False], [False, False, True, False, False],
                                [True, True, False, False, False], [False, True, True, False, False]])
        c["linked"] = rng.choice(["none", "all"]) if sum(c["vary"]) > 1 else "none"
    elif r < .5:
        c["vary"] = [True, True, True, False, False]
        c["linked"] = rng.choice(["pair", "pair", "two", "all"])
    c["ncpu"] = rng.choice([1, 1, 2])
    c["nwalk"] = max(c["nwalk"], 2 * sum(c["vary"]))
    names = ["trace_burnin", "trace", "corner", "plot"]
    files = {n: rng.choice(["ok", "ok", "none", "nodir"]) for n in names}
    files["sampler"] = rng.choice(["ok", "ok", "none"])
    files["bestfit"] = "ok"
    whole = rng.random() < .3
    steps = ["fit"] if whole else ["setup", "run", "analyze", "save"]
    if whole:
        c["nburn"] = max(c["nburn"], 1)
    after = [rng.choice(["eval", "analyze", "save", "reload", "reloadbest", "copy", "profile", "one", "corner"])
             for _ in range(rng.choice([1, 2, 2, 3]))]
    ops, stage, budget = [], "ctor", 4
    for st in ["ctor"] + steps + after:
        if st != "ctor":
            o = dict(op=st) if st != "corner" else dict(op="analyze")
            if st == "eval":
                o["th"] = world.random_theta(rng, c)
            if st in ("run", "fit", "reload"):
                o["fault"] = rng.choice(["none", "none", "ENOSPC", "KeyboardInterrupt", "EIO"])
                o["at"] = rng.randrange(4)
            if st in ("profile", "one"):
                o["plot"] = rng.choice(["ok", "ok", "ok", "ENOSPC", "nodir", "show" if st == "profile" else "ok"])
                o["seed"] = rng.randrange(1000)
                o["one"] = world1d.gen(rng) if st == "one" else None
                if st == "one":
                    o["one"].update(num_MC=3, cont_order=min(o["one"]["cont_order"], 1), nan=False)
            ops.append(o)
            stage = {"fit": "save"}.get(st, st if st in PLOTS else stage)
        for _ in range(rng.choice([0, 1, 1, 2])):
            p = rng.choice(PLOTS[stage])
            heavy = p in ("corner", "results")
            if heavy and budget <= 0:
                continue
            budget -= heavy
            ops.append(dict(op="plot", what=p, fault=rng.choice(FAULTS), again=rng.random() < .6 and budget > 0,
                            show=rng.random() < .12, u=round(rng.random(), 4), v=round(rng.random(), 4),
                            how=rng.choice(["method", "function"]), kind=rng.randrange(4),
                            exc=rng.choice(["KeyboardInterrupt", "MemoryError"])))
    big = None
    if not whole and rng.random() < .06:
        big = [rng.choice([60, 110]), rng.choice([40, 110])]
    return dict(cfg=c, files=files, image=rng.random() < .5, ops=ops, big=big)


def image(misfit, c, w):
    rs = np.random.RandomState(c["data_seed"] % 1000)
    n = 57
    y, x = np.mgrid[:n, :n] - 28.
    im = np.exp(-(x ** 2 + y ** 2 / c["q"] ** 2) / (2 * 6. ** 2)) + .01 * rs.standard_normal((n, n))
    if rs.random_sample() < .4:         # missing pixels
        im[rs.random_sample(im.shape) < rs.choice([.0005, .01])] = np.nan
        im[0, 3] = np.nan
    h = {}
    h["NAXIS"], h["NAXIS1"], h["NAXIS2"] = 2, n, n
    h["CTYPE1"], h["CTYPE2"], h["CRPIX1"], h["CRPIX2"] = "RA---TAN", "DEC--TAN", 29., 29.
    h["CRVAL1"], h["CRVAL2"], h["CD1_1"], h["CD2_2"], h["CD1_2"], h["CD2_1"] = 150., 2., -.06 / 3600, .06 / 3600, 0., 0.
    w.gal.set_pstamp(misfit.galaxy.Pstamp(pstamp=im, pstamp_hdr=h, img_PA=5.))
    w.gal.RA, w.gal.DEC, w.gal.sersicRA, w.gal.sersicDEC, w.gal.sersicPA = 150., 2., 150., 2., 20.
    w.gal.spec2D.slit_PA = 15.
    return misfit.instrument.Imager(pixscale=.06, PSF_FWHM=.15, PSF_type="Gaussian", band="F160W")


class Life(object):
    """One fit and the steps of its life; `out` records what each step computed or saved."""

    def enlarge(self):
        """Gives a fit that has run as many samples as a real one has (in cases marked big)."""
        if self.case.get("big"):
            f = self.fit
            f.sampler_dict = common.record(f.sampler_dict, *common.enlarge(f.sampler_dict["chain"], self.case["cfg"]["seed"], *self.case["big"]))
            if f.mcmcOptions.filename_sampler is not None:
                with open(f.mcmcOptions.filename_sampler, "wb") as fh:
                    pickle.dump(f.sampler_dict, fh)

    def __init__(self, misfit, case, d, plots):
        self.misfit, self.case, self.d, self.plots = misfit, case, d, plots
        c = case["cfg"]
        o = world.mcmc_options(misfit, c, d, [n for n in ("log", "h5", "bestfit", "sampler") if case["files"].get(n, "ok") == "ok"])
        self.dirs = set()
        if plots:
            for n in ("trace_burnin", "trace", "corner", "plot"):
                f = case["files"][n]
                if f != "none":
                    p = os.path.join(d, *(["missing-" + n] if f == "nodir" else []) + [n + ".png"])
                    setattr(o, world.OUTPUTS[n], p)
        self.w = world.build(misfit, c, mcmcOptions=o)
        self.w.fit.usetex = False
        self.img = None
        if case["image"]:
            self.img = image(misfit, c, self.w)
            self.w.fit.instrument_img = self.img
        self.fit = self.w.fit
        self.ones = {}
        self.out = []
        self.stage = "ctor"

    def read_back(self):
        r = {}
        m = self.fit.mcmcOptions
        for n in ("sampler", "bestfit"):
            p = getattr(m, world.OUTPUTS[n])
            if p is not None and os.path.exists(p):
                with open(p, "rb") as f:
                    x = pickle.load(f)
                r[n] = plain({k: v for k, v in x.items() if k != "fitEmis2D"} if n == "sampler" else dict(best=x.mcmc_results.bestfit_theta, err=x.mcmc_results.err_theta_1sig,
                                                           err2=x.mcmc_results.err_theta_2sig, theta=x.mcmc_results.bestfit_theta_fitting,
                                                           flux=x.galaxy.spec2D.flux))
        return r

    def step(self, k, o, missing=True):
        """Perform step `o`; an exception leaves it for the caller to repeat."""
        op, f = o["op"], self.fit
        asked = self.requested(op)
        for p in asked:
            if os.path.exists(p):
                os.remove(p)
        self.perform(k, o)
        for p in asked:
            self.sim.check(os.path.exists(p) and os.path.getsize(p) > 0, "no-plot", lambda: "%s did not make the requested %s" % (
                op, os.path.basename(p)))

    def requested(self, op):
        """The plots step `op` was asked for through the options."""
        if not self.plots:
            return []
        m = self.fit.mcmcOptions
        names = dict(run=["trace"], fit=["trace", "corner", "plot"], reload=["corner", "plot"]).get(op, [])
        if m.nBurn > 0 and op in ("run", "fit"):
            names = ["trace_burnin"] + names
        return [p for p in (getattr(m, world.OUTPUTS[n]) for n in names) if p]

    def perform(self, k, o):
        op, f = o["op"], self.fit
        if op == "setup":
            f.setup_model()
            r = dict(model=np.array(f.kinModel.model))
        elif op == "run":
            f.run_mcmc()
            self.enlarge()
            r = dict(chain=np.array(f.sampler_dict["chain"]), files=self.read_back())
        elif op == "analyze":
            f.analyze_results()
            r = dict(res=res2d(f))
        elif op == "save":
            f.save_bestfit_model()
            r = dict(files=self.read_back())
        elif op == "fit":
            f.fit()
            r = self.fitted()
        elif op == "eval":
            f.update_model(world.free_theta(self.case["cfg"], o["th"]))
            r = dict(model=np.array(f.kinModel.model))
        elif op == "reload":
            f.reload_results(doPlot=self.plots, resave_bestfit=True)
            r = self.fitted()
        elif op == "reloadbest":
            if not self.fit.mcmcOptions.filename_bestfit_model or not os.path.exists(f.mcmcOptions.filename_bestfit_model):
                r = {}
            else:
                keep = f.sampler_dict
                f.reload_bestfit_model()
                f.sampler_dict = keep
                r = dict(best=np.array(f.mcmc_results.bestfit_theta), flux=np.array(f.galaxy.spec2D.flux))
        elif op == "copy":
            self.fit = f.copy()
            r = dict(res=res2d(self.fit))
        elif op == "profile":
            r = self.profile(k, o)
        elif op == "one":
            r = self.one(k, o)
        self.done(op, r, k)

    def done(self, op, r, k):
        self.out.append((k, op, r))
        self.stage = {"fit": "save"}.get(op, op if op in PLOTS else self.stage)

    def fitted(self):
        return dict(res=res2d(self.fit), files=self.read_back())

    def profile(self, k, o):
        gu = self.misfit.general.galaxy_utils
        s = self.fit.galaxy.spec2D
        p = None
        if self.plots:
            p = {"nodir": os.path.join(self.d, "missing-p%d" % k, "p.png"), "show": None}.get(o["plot"], os.path.join(self.d, "p%d.png" % k))
        keep = np.random.get_state()
        np.random.seed(o["seed"])
        try:
            gu.fit_emission_y_profile(s, self.fit.galaxy, self.fit.instrument, filename_plot=p,
                                      plot=self.plots and o["plot"] == "show", num_MC=4)
        finally:
            np.random.set_state(keep)
        return self.profile_values()

    def profile_values(self):
        s = self.fit.galaxy.spec2D
        return {n: np.array(getattr(s, n)) for n in ("D50", "D50_err", "sigma_y_emis_obs", "sigma_y_emis_obs_err",
                                                     "sigma_y_emis_int", "sigma_y_emis_int_err")}

    def one(self, k, o):
        m, c = self.misfit, o["one"]
        keep = np.random.get_state()
        np.random.seed(o["seed"])
        g, _ = world1d.galaxy(m, c)
        f = self.ones[k] = world1d.make_fit(m, c, g, world1d.instrument(m, c))
        try:
            kw = dict(noPlot=True)
            if self.plots:
                kw = dict(noPlot=False, plot_filename=os.path.join(
                    self.d, *(["missing-o%d" % k] if o["plot"] == "nodir" else []) + ["o%d.png" % k]))
            f.fit(err_filename=os.path.join(self.d, "e%d" % k), **kw)
        finally:
            np.random.set_state(keep)
        return self.one_values(k)

    def one_values(self, k):
        return world1d.result(self.ones[k])


def unplotted(misfit, case):
    """The same life without any plot."""
    def go(s):
        world1d.cache_tables(s, misfit)
        np.random.seed(case["cfg"]["seed"] % (1 << 31))
        random.seed(5)
        life = Life(misfit, case, s.dir, False)
        for k, o in enumerate(case["ops"]):
            if o["op"] != "plot" and ready(life, o["op"]):
                try:
                    life.step(k, o)
                except Exception as e:
                    if o["op"] != "one":           # (spectra that cannot be fitted are not C13's matter)
                        raise
                    life.out.append((k, "one", "failed"))
        return life.out
    return go


def ready(life, op):
    f = life.fit
    if op in ("run", "eval"):
        return f.kinModel is not None
    if op == "analyze":
        return f.kinModel is not None and (f.sampler_dict is not None)
    if op in ("save", "copy", "reloadbest"):
        return f.mcmc_results.bestfit_theta is not None and f.sampler_dict is not None
    if op == "reload":
        return f.sampler_dict is not None
    return True


def plot_ready(life, p):
    f = life.fit
    if p in ("corner", "results"):
        return f.mcmc_results.bestfit_theta is not None and f.sampler_dict is not None and f.kinModel.bestfit is not None
    if p == "trace":
        return f.sampler_dict is not None and f.kinModel is not None
    if p == "fitted":
        return f.kinModel is not None
    if p == "image":
        return f.galaxy.pstamp is not None
    return True


def run(misfit, case, sim):
    import matplotlib.pyplot as plt
    c = case["cfg"]
    want = sub_run(sim, "unplotted", unplotted(misfit, case), plots="real")
    d = os.path.join(sim.dir, "plotted")
    os.makedirs(d)
    seams.install_all(sim, "real")
    world1d.cache_tables(sim, misfit)
    plt.close("all")
    np.random.seed(c["seed"] % (1 << 31))
    random.seed(5)
    life = sim.sut(Life, misfit, case, d, True)
    life.sim = sim
    seen = [len(life.out)]
    prev = "ctor"

    def no_figures(what):
        n = plt.get_fignums()
        sim.check(not n, "figure-left-open", lambda: "%s left figure(s) %r open" % (what, n))

    def compare():
        while seen[0] < len(life.out):
            k, op, r = life.out[seen[0]]
            seen[0] += 1
            w = [x for x in want if x[0] == k]
            sim.check(len(w) == 1, "later-step", lambda: "step %d (%s) has no counterpart without plots" % (k, op))
            if isinstance(w[0][2], str):
                continue
            x = diff(plain(r), plain(w[0][2]), rtol=1e-9)
            sim.event("step", k, op, digest(r))
            sim.check(x is None, "plots-changed/" + op, lambda: "step %d (%s) gives something else than without plots: %s" % (k, op, x))

    def snapshot():
        return dict(fit=plain(life.fit), img=plain(life.img), inst=plain(life.w.inst), kin=plain(life.w.kin), intp=plain(life.w.intp),
                    settings=plain(life.w.settings), options=plain(life.w.options), gal=plain(life.w.gal), process=procstate(),
                    rand=[plain(x) for x in np.random.get_state()[1:]], py=digest(random.getstate()))

    def missing_dirs():
        """Create the directories whose absence stopped a plot."""
        for n in ("trace_burnin", "trace", "corner", "plot"):
            p = getattr(life.fit.mcmcOptions, world.OUTPUTS[n])
            if p:
                os.makedirs(os.path.dirname(p), exist_ok=True)

    def fileout(o, k):
        if o["show"]:
            return None
        return os.path.join(d, *(["missing-%d" % k] if o["fault"] == "nodir" else []) + ["%s%d.png" % (o["what"], k)])

    def draw(o, k, out):
        p, f, mp = o["what"], life.fit, misfit.plot
        opts = f.mcmcOptions
        names = ("filename_plot_param_corner", "filename_plot_bestfit")
        keep = {n: getattr(opts, n) for n in names}
        try:
            if p == "results" or (o["how"] == "method" and p in ("corner", "fitted")):
                for n in names:
                    setattr(opts, n, None if out is None else out[:-4] + ("c.png" if "corner" in n else "p.png"))
            if p == "trace":
                mp.plot_trace(f.sampler_dict, f, fileout=out or os.path.join(d, "t%d.png" % k), usetex=f.usetex)
            elif p == "corner":
                if o["how"] == "method":
                    f.plot_param_corner()
                else:
                    mp.plot_param_corner(f, fileout=out, showLinked=o["kind"] != 0, usetex=f.usetex)
            elif p in ("fitted", "data"):
                if o["how"] == "method":
                    f.plot_bestfit_model()
                else:
                    mp.plot_bestfit_model(f, fileout=out, noTitles=o["kind"] == 0, usetex=f.usetex)
            elif p == "results":
                f.plot_results()
            elif p == "image":
                kw = [{}, dict(rotate=False), dict(convolve=True),
                      dict(convolve=True, downsample=True, m0=float(f.galaxy.spec2D.m0), n_spatial_pixels=f.galaxy.spec2D.flux.shape[0])][o["kind"]]
                mp.plot_image_slit(galaxy=f.galaxy, instrument=f.instrument, instrument_img=f.instrument_img,
                                   saveToFile=out is not None, fileout=out, **kw)
        finally:
            for n in names:
                setattr(opts, n, keep[n])

    def written(o, k, out):
        if out is None or o["show"]:
            return
        ps = [out]
        if o["what"] == "results":
            ps = [out[:-4] + "c.png", out[:-4] + "p.png"]
        elif o["how"] == "method" and o["what"] in ("corner", "fitted", "data"):
            ps = [out[:-4] + "c.png" if o["what"] == "corner" else out[:-4] + "p.png"]
            if o["what"] == "data":
                return
        for p in ps:
            sim.check(os.path.exists(p) and os.path.getsize(p) > 0, "no-plot", lambda: "the %s plot was not written" % o["what"])

    for k, o in enumerate(case["ops"]):
        op = o["op"]
        if op == "plot":
            p = o["what"]
            if not plot_ready(life, p):
                continue
            if p == "data" and o["how"] == "method" and life.fit.mcmcOptions.filename_plot_bestfit is None:
                o = dict(o, how="function")
            if p == "data" and o["how"] == "method":
                o = dict(o, how="function")
            sim.stats["plot:" + p] += 1
            before = snapshot()
            out = fileout(o, k)
            flt = o["fault"] if not (o["show"] and o["fault"] not in ("line", "none")) else "none"
            if p == "trace" and flt == "nodir" and out is None:
                flt = "none"
            where = ""
            if flt == "line":
                tr = seams.LineTracer(sim, files=(os.path.join("misfit", "plot"), "general_utils"))
                tr.seen = {}

                def count():
                    sim.quiet += 1
                    tr.run(lambda: draw(o, k, out))
                    return tr.seen
                lines = sim.isolated(count)
                n = seams.pick_line(lines, o["u"], o["v"])
                val, exc = sim.attempt(lambda: tr.run(lambda: draw(o, k, out), n, o["exc"]))
                where = " interrupted at %s" % tr.where
                exc = None
                core.collect()
                sim.disarm()
                plt.close("all")
            else:
                if flt in ("ENOSPC", "EIO"):
                    sim.arm("savefig", 0, err=flt)
                elif flt in ("KeyboardInterrupt", "RuntimeError"):
                    sim.arm("savefig", 0, exc=flt)
                val, exc = sim.attempt(draw, o, k, out)
                sim.disarm()
                if flt == "none":
                    if exc is not None:
                        sim.sut(re_raise, exc)
                    written(o, k, out)
                else:
                    sim.check(exc is not None and (core.is_injected(exc) or flt == "nodir" and isinstance(exc, FileNotFoundError)),
                              "error-lost", lambda: "the %s plot met %s writing its file but ended with %r" % (p, flt, exc))
                    sim.stats["failed-plots"] += 1
                    where = " failing with %s" % flt
                    exc = None
                    core.collect()
                if o["show"]:
                    plt.close("all")
                elif not (p == "trace" and out is None):
                    no_figures("the %s plot%s" % (p, where))
            r = diff(snapshot(), before)
            sim.check(r is None, "plot-changed/" + p, lambda: "the %s plot%s changed %s" % (p, where, r))
            if flt != "none" and o["again"]:
                o2 = dict(o, fault="none")
                out2 = fileout(o2, k)
                sim.sut(draw, o2, k, out2)
                written(o2, k, out2)
                plt.close("all") if o["show"] else no_figures("the repeated %s plot" % p)
                r = diff(snapshot(), before)
                sim.check(r is None, "plot-changed/" + p, lambda: "the repeated %s plot changed %s" % (p, r))
            sim.states.add((p, life.stage, prev, flt, case["image"], c["linked"], sum(c["vary"])))
            prev = "plot"
            continue
        if not ready(life, op):
            continue
        sim.stats["step:" + op] += 1
        flt = o.get("fault", "none")
        keep = np.random.get_state()
        before_fit = copy.copy(life.fit.__dict__)
        if flt in ("ENOSPC", "EIO"):
            sim.arm("savefig", o["at"] % 4, err=flt)
        elif flt != "none":
            sim.arm("savefig", o["at"] % 4, exc=flt)
        elif o.get("plot") == "ENOSPC":
            sim.arm("savefig", 0, err="ENOSPC")
        nf = len(sim.fired)
        val, exc = sim.attempt(life.step, k, o)
        sim.disarm()
        if exc is not None:
            ok = core.is_injected(exc) and len(sim.fired) > nf or isinstance(exc, FileNotFoundError) and "missing-" in str(exc)
            w = [x for x in want if x[0] == k]
            if op == "one" and w and isinstance(w[0][2], str):
                exc = None
                core.collect()
                plt.close("all")
                continue
            if not ok:
                sim.sut(re_raise, exc)
            sim.stats["failed-plots"] += 1
            which = failed_plot(exc, sim.fired[nf:])
            exc = None
            core.collect()
            if None not in [getattr(life.fit.mcmcOptions, n) for n in ("filename_plot_param_corner", "filename_plot_bestfit")]:
                no_figures("step %d (%s) whose %s plot failed" % (k, op, which))
            plt.close("all")
            # whatever came before the plot must be there, as computed without plots
            w = w[0][2]
            if op in ("fit", "reload") and life.fit.mcmc_results.bestfit_theta is not None and which in ("corner.png", "plot.png"):
                r = diff(plain(life.fitted()), plain(w), rtol=1e-9)
                sim.check(r is None, "lost/" + op, lambda: "after the %s plot failed, the results of %s are not those without plots: %s" % (which, op, r))
                missing_dirs()
                sim.sut(life.fit.plot_results)
                life.done(op, life.fitted(), k)
            elif op in ("run", "fit") and which == "trace.png":
                if op == "run":
                    life.enlarge()
                r = diff(plain(life.fit.sampler_dict and common.rectified(c, life.fit.sampler_dict["chain"])),
                         plain(common.rectified(c, w["chain"] if op == "run" else w["res"]["chain"])), rtol=1e-9)
                sim.check(r is None, "lost/" + op, lambda: "after the trace plot failed, the samples are not there: %s" % r)
                missing_dirs()
                if case["files"]["sampler"] == "ok" and not (op == "run" and case.get("big")):
                    sim.check("sampler" in life.read_back(), "lost/sampler-file", "the samples were not saved before their plot failed")
                if op == "fit":
                    sim.sut(life.fit.analyze_results)
                    sim.sut(life.fit.save_bestfit_model)
                    sim.sut(life.fit.plot_results)
                    life.done(op, life.fitted(), k)
                else:
                    life.done(op, dict(chain=np.array(life.fit.sampler_dict["chain"]), files=life.read_back()), k)
            elif op in ("profile", "one"):
                r = life.profile_values() if op == "profile" else life.one_values(k)
                x = diff(plain(r), plain(w), rtol=1e-9)
                sim.check(x is None, "lost/" + op, lambda: "after its plot failed, the results of the %s are not those without: %s" % (
                    "emission profile" if op == "profile" else "1D fit", x))
                life.done(op, r, k)
            else:
                missing_dirs()
                np.random.set_state(keep)
                sim.sut(life.step, k, o)
        compare()
        prev = op
        if op == "profile" and o["plot"] == "show" or None in [getattr(life.fit.mcmcOptions, n) for n in (
                "filename_plot_param_corner", "filename_plot_bestfit")]:
            plt.close("all")
        no_figures("step %d (%s)" % (k, op))
    compare()
    sim.check(len(want) == seen[0] or any(isinstance(x[2], str) for x in want), "later-step",
              lambda: "%d steps were made without plots, %d with" % (len(want), seen[0]))


def failed_plot(exc, fired):
    """File name of the plot that could not be written."""
    if fired:
        return fired[-1]["at"][0]
    return os.path.basename(str(getattr(exc, "filename", "")))


def re_raise(e):
    raise e


def nontrivial(case, r):
    return any(o["op"] == "plot" for o in case["ops"]) and len(case["ops"]) >= 4


def valid(case):
    return bool(case["ops"])
