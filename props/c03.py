"""C03: fits and models sharing objects do not influence each other."""
import pickle
import random

from props.common import *
from props import common
from sim import world1d

ID = "C03"
LEVEL = "exploration"
QUICK, THOROUGH = 120, 2000
RULE = ("a case is 2-4 actors (2D fits, 1D fits, slit/IFU/1D-aperture models, mocks) over shared galaxies, instruments, "
        "options, priors, settings and profiles or default objects; a seeded schedule interleaves their stages, some run "
        "inside another fit's sampling; non-trivial: at least two actors were interleaved and share an object or default")
STATES = "distinct (actor kind, stage, previous actor kind, previous stage, same galaxy?) transitions"
ASSUMPTIONS = ["each actor has its own stream of numpy random numbers, so that only shared objects can carry influence",
               "switches happen between stages, and inside sampling at model evaluations and task hand-outs",
               "galaxies prepared by fits with different instruments are not shared (preparation happens once, see C09)"]
SIMPLE = [("cfg.0.nsub", 1), ("cfg.0.psf_type", "Gaussian"), ("cfg.1.nsub", 1), ("cfg.1.psf_type", "Gaussian")]
STAGES = {"fit2d": ["ctor", "setup", "sample", "analyze", "save", "eval"],
          "fit2d-again": ["ctor", "first", "setup", "sample", "analyze", "save", "eval"], "fit2d-whole": ["ctor", "fit", "eval"],
          "fit1d": ["ctor", "fit", "corr"], "slit": ["make", "eval"], "ifu": ["make", "eval"], "rot": ["make", "eval"],
          "disp": ["make", "eval"], "mock": ["run"], "mockifu": ["run"]}


TWIN = ["q", "q0", "n", "re", "re_mass", "q_mass", "delt_PA", "z", "lamshift", "dlam", "ny", "nw", "data_seed", "snr", "faint", "weighting",
        "psf_fwhm", "psf_type", "slit_width", "inst_res", "theta0", "m0off", "absval", "nsub", "pad"]


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    c0 = world.gen_cfg(rng, cont=False, prior="auto")
    c1 = dict(c0)
    o = world.gen_cfg(rng, cont=False, prior="auto")
    inst = ("pixscale", "slit_width", "psf_fwhm", "psf_type", "inst_res", "yspace")
    same_inst = rng.random() < .6
    for k in o:
        if k not in inst or not same_inst:
            c1[k] = o[k]
    if same_inst:
        c1["ny"] = c0["ny"]
        c1["line"] = c0["line"]
        c1["z"] = round(c0["z"] + rng.uniform(-.1, .1), 4)
    for c in (c0, c1):
        c["geo"] = world.gen_geo(rng, .4)
    if rng.random() < .35:     # twins: alike but for one thing (whatever is kept for one of them must not serve the other)
        what = "sky" if rng.random() < .25 else rng.choice(TWIN)
        if what == "sky":
            c0.update(flat=True, bad_frac=0., sky=[rng.randrange(1, c0["nw"] // 2)])
            c1 = dict(c0, sky=[rng.randrange(c0["nw"] // 2, c0["nw"] - 1)])
        else:
            c1 = dict(c0, **{what: o[what]})
            if what == "ny":
                c1["faint"] = 0.
        same_inst = what not in inst
    one = [world1d.gen(rng), world1d.gen(rng)]
    n = rng.choice([2, 2, 3, 3, 4])
    actors = []
    for k in range(n):
        kind = rng.choice(["fit2d", "fit2d", "fit2d-again", "fit2d-whole", "fit1d", "slit", "ifu", "rot", "disp", "mock", "mockifu"])
        g = rng.randrange(2)
        a = dict(kind=kind, g=g, seed=rng.randrange(1 << 30), share=sorted(s for s in (
            "galaxy", "inst", "kin", "intp", "opt", "prior", "settings", "mcmc") if rng.random() < .6),
            defaults=rng.random() < .25, names=rng.choice(world1d.GROUPS[:4]), ncpu=rng.choice([1, 1, 2, 3]),
            th=world.random_theta(rng, (c0, c1)[g]), npix=rng.choice([9, 11]), re=round(rng.uniform(.1, .5), 2),
            spec_type=rng.choice(["wave", "wave", "velocity"]))
        actors.append(a)
    left = {k: list(STAGES[a["kind"]]) for k, a in enumerate(actors)}
    ops = []
    while any(left.values()):
        k = rng.choice([k for k in left if left[k]])
        st = left[k].pop(0)
        op = dict(a=k, stage=st)
        if st in ("sample", "fit") and actors[k]["kind"].startswith("fit2d") and rng.random() < .5:
            nest = []
            for _ in range(rng.choice([1, 1, 2])):
                js = [j for j in left if j != k and left[j]]
                if js:
                    j = rng.choice(js)
                    nest.append(dict(a=j, stage=left[j].pop(0), at=rng.randrange(40)))
            op["inside"] = nest
        ops.append(op)
    for a in actors:
        if a["kind"] == "fit2d-again":
            a["first"] = sorted(s for s in ("opt", "inst", "settings", "run") if rng.random() < .6)
            a["place"] = rng.random() < .5
    fresh = [rng.randrange(1, 1 << 20), rng.randrange(n)] if rng.random() < .03 else None   # one of them alone in another interpreter
    return dict(cfg=[c0, c1], same_inst=same_inst, one=one, actors=actors, ops=ops, fresh=fresh)


class Objects(object):
    def __init__(self, misfit, case, d, alone=False):
        self.misfit, self.case, self.d, self.alone = misfit, case, d, alone
        self.shared, self.made = {}, {}

    def get(self, a, what, make, key=None):
        """The shared object `what` if actor `a` shares it, else a new one."""
        if what not in a["share"]:
            return make()
        key = (what, key)
        if key not in self.shared:
            self.shared[key] = make()
            self.made[key] = self.told(key, self.shared[key])
        return self.shared[key]

    def inst(self, a):
        k = 0 if self.case["same_inst"] else a["g"]
        return self.get(a, "inst", lambda: world.instrument(self.misfit, self.case["cfg"][k]), k)

    def galaxy(self, a):
        return self.get(a, "galaxy", lambda: world.galaxy(self.misfit, self.case["cfg"][a["g"]]), a["g"])

    def galaxy1d(self, a):
        k = a["g"]
        c = dict(self.case["one"][k], names=a["names"])
        # one spectrum per galaxy, covering the lines of the configuration
        return self.get(a, "galaxy", lambda: world1d.galaxy(self.misfit, dict(self.case["one"][k]))[0], ("1d", k))

    def kin(self, a):
        return self.get(a, "kin", self.misfit.KinProfileFiducial)

    def intp(self, a):
        c = self.case["cfg"][0]
        # made for the first galaxy; used alone, for the galaxy it is used with
        g = self.case["cfg"][a["g"]] if self.alone else c
        return self.get(a, "intp", lambda: world.intensity(self.misfit, c, world.galaxy(self.misfit, g)))

    def opt(self, a):
        return self.get(a, "opt", lambda: world.model_options(self.misfit, self.case["cfg"][0]))

    def settings(self, a):
        return self.get(a, "settings", lambda: world.settings(self.misfit, self.case["cfg"][a["g"]]), a["g"])

    def prior(self, a):
        c = self.case["cfg"][0]
        s = world.settings(self.misfit, c)
        return self.get(a, "prior", lambda: self.misfit.ThetaPriorFlat(theta=s.theta, theta_vary=s.theta_vary,
                                                                       theta_bounds=s.theta_bounds))

    def mcmc(self, a, k):
        c = dict(self.case["cfg"][0], ncpu=a["ncpu"], nwalk=12)
        if "mcmc" in a["share"]:
            c["ncpu"] = 2
            return self.get(a, "mcmc", lambda: world.mcmc_options(self.misfit, c))
        return world.mcmc_options(self.misfit, c, self.d, world.ALL_FILES, "a%d" % k)

    def told(self, key, o):
        """What the caller owns and may expect unchanged."""
        what, g = key
        if what in ("kin", "intp"):
            return None                               # profiles carry the parameters last evaluated
        p = plain(o)
        if what == "galaxy":
            # what it was made with; the package may add derived values
            made = self.made.get(key) or p
            p = {k: v for k, v in p.items() if k in made and k not in ("spec2D", "spec1D_trim")}
            geo = self.case["cfg"][g].get("geo") if g in (0, 1) else None
            if geo is not None and geo["off"] == 0.:
                p.pop("delt_PA", None)                # to be derived
                p.pop("delt_PA_abs", None)
        if what == "mcmc":
            p.pop("nCPUs", None)
            p.pop("NoThread", None)
        return p


class Actor(object):
    def __init__(self, misfit, objs, a, k):
        self.misfit, self.objs, self.a, self.k = misfit, objs, a, k
        self.rs = np.random.RandomState(a["seed"] % (1 << 31)).get_state()
        self.py = random.Random(a["seed"]).getstate()
        self.out = {}
        self.busy = False
        self.snap = None

    def stage(self, st):
        keep, pk = np.random.get_state(), random.getstate()
        np.random.set_state(self.rs)
        random.setstate(self.py)
        self.busy = True
        try:
            getattr(self, "do_" + st)()
        finally:
            self.busy = False
            self.rs, self.py = np.random.get_state(), random.getstate()
            np.random.set_state(keep)
            random.setstate(pk)

    def do_ctor(self):
        m, o, a = self.misfit, self.objs, self.a
        if a["kind"] == "fit1d":
            c = self.objs.case["one"][a["g"]]
            names = a["names"] if (a["names"][0] == "Halpha") == (c["names"][0] == "Halpha") else c["names"]
            self.f = world1d.make_fit(m, dict(c, names=names), o.galaxy1d(a), o.inst(a))
            return
        c = self.objs.case["cfg"][a["g"]]
        kw = {}
        if not a["defaults"]:
            kw = dict(kinProfile=o.kin(a), intensityProfile=o.intp(a), kinModelOptions=o.opt(a))
            if "prior" in a["share"]:
                kw["thetaPrior"] = o.prior(a)
        self.f = m.fit.FitEmissionLines2D(galaxy=o.galaxy(a), instrument=o.inst(a), linegroup_name=c["line"],
                                          thetaSettings=o.settings(a), mcmcOptions=o.mcmc(a, self.k), usetex=False, **kw)

    def do_first(self):
        """The same fit object was set up (and run) with other options, instrument or settings before."""
        m, a, f = self.misfit, self.a, self.f
        if self.objs.alone:
            return
        c = dict(self.objs.case["cfg"][a["g"]])
        keep = f.kinModelOptions, f.instrument, f.thetaSettings
        place = None
        if "opt" in a["first"]:
            if a["place"] and "opt" not in a["share"] and not a["defaults"]:
                place = dict(f.kinModelOptions.__dict__)
                f.kinModelOptions.nSubpixels, f.kinModelOptions.pad_factor = 3 - c["nsub"] % 2, .4
            else:
                f.kinModelOptions = world.model_options(m, dict(c, nsub=3 - c["nsub"] % 2, pad=.4, absval=not c["absval"]))
        if "inst" in a["first"]:
            f.instrument = world.instrument(m, dict(c, slit_width=c["slit_width"] + .15, psf_fwhm=c["psf_fwhm"] + .1))
        if "settings" in a["first"]:
            th0 = list(c["theta0"])
            th0[0], th0[2] = th0[0] + 20., th0[2] + 5.
            f.thetaSettings = world.settings(m, dict(c, theta0=th0, va_bound=700.))
        rs = np.random.get_state()
        f.setup_model()
        if "run" in a["first"]:
            f.run_mcmc()
            f.analyze_results()
            np.random.set_state(rs)
        else:
            f.make_model(world.free_theta(c, a["th"]))
        f.kinModelOptions, f.instrument, f.thetaSettings = keep
        if place is not None:
            f.kinModelOptions.__dict__.update(place)

    def do_setup(self):
        self.f.setup_model()

    def do_sample(self):
        self.f.run_mcmc()

    def do_analyze(self):
        self.f.analyze_results()

    def do_save(self):
        self.f.save_bestfit_model()

    def do_fit(self):
        if self.a["kind"] == "fit1d":
            self.f.fit(noPlot=True, err_filename=os.path.join(self.objs.d, "e%d" % self.k))
        else:
            self.f.fit()

    def do_corr(self):
        self.f.calculate_inst_corr_vel_disp(err_filename=os.path.join(self.objs.d, "e%d" % self.k))
        self.out = world1d.result(self.f)

    def do_make(self):
        m, o, a = self.misfit, self.objs, self.a
        c = o.case["cfg"][a["g"]]
        gal, inst = o.galaxy(a), o.inst(a)
        self.gal = gal
        if not gal.spec2D.prepared_for_fitting:
            gal.spec2D.initialize_lineset()
            gal.spec2D.fit_prep_calcs(gal, inst)
        if a["kind"] in ("slit", "ifu"):
            kw = {} if a["defaults"] else dict(kinProfile=o.kin(a), intensityProfile=o.intp(a), kinModelOptions=o.opt(a))
            if a["defaults"]:
                kw["intensityProfile"] = world.intensity(m, c, gal)
            self.f = m.KinModel2D(gal, thetaSettings=o.settings(a), no_scale=a["kind"] == "ifu", **kw)
        elif a["kind"] == "disp":
            self.f = m.model.AperModel1DDisp(galaxy=gal, instrument=inst, nPixels=a["npix"], extraction_width=1.)
        else:
            kw = dict(kinProfile=o.kin(a), intensityProfile=o.intp(a))
            self.f = m.model.AperModel1DRot(galaxy=gal, instrument=inst, nPixels=a["npix"], extraction_width=1.,
                                            theta=np.array([2., a["th"][0], a["re"]], dtype=object), **kw)
        self.ev(0)

    def ev(self, n):
        o, a = self.objs, self.a
        c = o.case["cfg"][a["g"]]
        inst = o.inst(a)
        free = world.free_theta(c, a["th"])
        if n:
            free = free * .97
        if a["kind"] == "slit":
            if n == 0:
                self.f.make_model(galaxy=self.gal, instrument=inst, theta_fitting=free)
            else:
                self.f.update_model(theta_fitting=free)
            self.out["model%d" % n] = np.array(self.f.model)
        elif a["kind"] == "ifu":
            if n == 0:
                self.f.make_3D_int_model(galaxy=self.gal, instrument=inst, theta_fitting=free)
            else:
                self.f.update_3D_int_model(theta_fitting=free)
            self.out["model%d" % n] = np.array(self.f.model_cube)
        else:
            self.f.calc_aper_correction()
            self.out["ratio%d" % n] = float(self.f.disp_aper_ratio)

    def do_eval(self):
        a = self.a
        if a["kind"].startswith("fit2d"):
            c = self.objs.case["cfg"][a["g"]]
            self.out = res2d(self.f)
            self.f.update_model(world.free_theta(c, a["th"]))
            self.out["eval"] = np.array(self.f.kinModel.model)
            self.f.update_model(self.f.mcmc_results.bestfit_theta_fitting)
            self.out["again"] = np.array(self.f.kinModel.model)
            p = self.f.mcmcOptions.filename_bestfit_model
            if p is not None and os.path.exists(p):
                with open(p, "rb") as f:
                    self.out["saved"] = np.array(pickle.load(f).mcmc_results.bestfit_theta)
        else:
            self.ev(1)

    def do_run(self):
        m, o, a = self.misfit, self.objs, self.a
        c = o.case["cfg"][a["g"]]
        vel = a["spec_type"] == "velocity" and a["kind"] == "mock"
        wave = np.linspace(-900., 900., 13) if vel else world.wavelengths(c)
        kw = dict(z=c["z"], ID=3, Va=a["th"][0], rt=a["th"][1], sigma0=a["th"][2], yshift=0., n=c["n"], re_arcsec=c["re"],
                  q=c["q"], q0=c["q0"], delt_PA=c["delt_PA"], wave=wave, instrument_name="SIM", pixscale=c["pixscale"],
                  instrument_resolution=c["inst_res"], slit_width=c["slit_width"], slit_length=9 * c["pixscale"], nymin=7,
                  PSF_FWHM=c["psf_fwhm"], PSF_type=c["psf_type"], band=world.LINES[c["line"]][1],
                  line_primary=world.LINES[c["line"]][0], linegroup_name=c["line"], nSubpixels=1, pad_factor=c["pad"])
        if vel:
            kw["spec_type"] = "velocity"
        if not a["defaults"]:
            if "kin" in a["share"]:
                kw["kinProfile"] = o.kin(a)
            if "intp" in a["share"]:
                kw["intensityProfile"] = o.intp(a)
        if a["kind"] == "mock":
            self.out["mock"] = np.array(m.mock.generate_mock_slit_obs(**kw))
        else:
            kw["slit_width"] = kw["slit_length"]
            self.out["mock"] = np.array(m.mock.generate_mock_IFU_cube(**kw))


def alone(misfit, case, k):
    def go(s):
        world1d.cache_tables(s, misfit)
        a = case["actors"][k]
        act = Actor(misfit, Objects(misfit, case, s.dir, alone=True), a, k)
        for st in STAGES[a["kind"]]:
            s.sut(act.stage, st)
        return act.out
    return go


def fresh(misfit, sim, case, k):
    return alone(misfit, case, k)(sim)


def run(misfit, case, sim):
    ran = [o for o in case["ops"]]
    involved = sorted({o["a"] for o in ran} | {x["a"] for o in ran for x in o.get("inside", [])})
    ref = {k: sub_run(sim, "alone%d" % k, alone(misfit, case, k)) for k in involved}
    if case.get("fresh") and case["fresh"][1] in ref:
        h, k = case["fresh"]
        d = os.path.join(sim.dir, "fresh")
        os.makedirs(d)
        r = differs(common.fresh_run(sim, h, ID, "fresh", (case, k), d), ref[k])
        sim.check(r is None, "interpreter/" + case["actors"][k]["kind"], lambda: (
            "the %s (actor %d) gives something else in a new interpreter (PYTHONHASHSEED=%d): %s" % (case["actors"][k]["kind"], k, h, r)))
    d = os.path.join(sim.dir, "together")
    os.makedirs(d)
    seams.install_all(sim)
    world1d.cache_tables(sim, misfit)
    objs = Objects(misfit, case, d)
    acts = {k: Actor(misfit, objs, a, k) for k, a in enumerate(case["actors"])}
    prev = ["", ""]
    proc = procstate()

    def step(op):
        a = acts[op["a"]]
        st = op["stage"]
        want = STAGES[a.a["kind"]]
        i = a.__dict__.setdefault("pos", 0)
        if a.busy or i >= len(want) or want[i] != st:
            return                                     # (a shrunken case may have lost a stage)
        sim.states.add((a.a["kind"], st, prev[0], prev[1]))
        sim.event("stage", op["a"], a.a["kind"], st)
        nest = sorted(op.get("inside", []), key=lambda x: x["at"])
        base = [0]

        def on_point(kind):
            if kind in ("eval", "chunk") and sim.in_worker == 0:
                base[0] += 1
                while nest and nest[0]["at"] < base[0]:
                    x = nest.pop(0)
                    sim.on_point = None
                    sim.stats["nested-stages"] += 1
                    try:
                        step(x)
                    finally:
                        sim.on_point = on_point
        if nest:
            sim.on_point = on_point
        try:
            sim.sut(a.stage, st)
        finally:
            sim.on_point = None
        a.pos += 1
        prev[0], prev[1] = a.a["kind"], st
        sim.stats["stages"] += 1
        check_proc(sim, proc, "stage %s of a %s" % (st, a.a["kind"]))
        for key, given in objs.made.items():
            r = diff(objs.told(key, objs.shared[key]), given)
            sim.check(r is None, "settings-changed", lambda: "stage %s of a %s changed the caller's %s%s" % (
                st, a.a["kind"], key, r))
        for x in nest:
            step(x)

    for op in case["ops"]:
        step(op)
    for k in involved:
        if getattr(acts[k], "pos", 0) == len(STAGES[acts[k].a["kind"]]):
            r = differs(acts[k].out, ref[k])
            sim.event("out", k, digest(acts[k].out))
            sim.check(r is None, "influenced/" + acts[k].a["kind"], lambda: (
                "the %s (actor %d, sharing %s%s) gives something else among the others than alone: %s" % (
                    acts[k].a["kind"], k, acts[k].a["share"], ", defaults" if acts[k].a["defaults"] else "", r)))


def nontrivial(case, r):
    return len({o["a"] for o in case["ops"]}) >= 2


def shrinks(case):
    import json
    for k in range(len(case["actors"])):             # drop one actor
        c = json.loads(json.dumps(case))
        c["ops"] = [o for o in c["ops"] if o["a"] != k]
        for o in c["ops"]:
            if "inside" in o:
                o["inside"] = [x for x in o["inside"] if x["a"] != k]
        if len(c["ops"]) < len(case["ops"]) and c["ops"]:
            yield c
    for k, o in enumerate(case["ops"]):              # un-nest
        if o.get("inside"):
            c = json.loads(json.dumps(case))
            ins = c["ops"][k].pop("inside")
            c["ops"][k + 1:k + 1] = [dict(a=x["a"], stage=x["stage"]) for x in ins]
            yield c
    for k, a in enumerate(case["actors"]):
        for s in a["share"]:
            c = json.loads(json.dumps(case))
            c["actors"][k]["share"].remove(s)
            yield c
