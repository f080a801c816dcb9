"""C12: mock observations are repeatable and free of side effects."""
import copy
import pickle

from props.common import *
from props import common

ID = "C12"
LEVEL = "exploration"
QUICK, THOROUGH = 500, 8000
RULE = ("a case is a history of 4-10 operations over two or three mock set-ups with shared, own or default profiles: slit and "
        "IFU mocks, deferred evaluations of earlier mock models, direct model evaluations, fits, failed generations, "
        "generations interrupted at a chosen line, copies of profiles and edits of returned arrays; non-trivial: at least "
        "two generations with something in between")
STATES = "distinct (operation, previous operation, mock's profile sharing, same set-up as before?) tuples"
ASSUMPTIONS = ["a fresh generation for comparison runs in its own forked process with profiles of its own",
               "wavelength-unit mocks without position shift or effective resolution are also compared with the independent "
               "reference model (1e-6)",
               "a profile object passed in is documented to take over the values of the galaxy it is evaluated for; "
               "everything else passed in must stay unchanged",
               "interrupts arrive between lines of the package's Python code"]
SIMPLE = [("specs.0.nsub", 1), ("specs.1.nsub", 1), ("specs.0.psf_type", "Gaussian"), ("specs.0.pad", .5)]
EVAL = ("slit", "ifu", "cut-slit", "cut-ifu")


def warm(misfit):
    common.warm2d(misfit, fit=False)


def spec(rng):
    u = lambda a, b, nd=3: round(rng.uniform(a, b), nd)
    line = rng.choice(["Halpha", "Halpha", "Hbeta", "OIII"])
    re = u(.3, .9)
    s = dict(line=line, z=u(1.9, 2.5, 4), Va=u(-300, 300, 1), rt=u(.1, .7),
             sigma0=rng.choice([u(40, 120, 1), u(40, 120, 1), u(3, 30, 1), u(-60, -20, 1)]),
             yshift=rng.choice([0., 0., u(-.6, .6)]), n=rng.choice([1., 1., u(.5, 3.)]), re=re, q=u(.1, .95),
             q0=rng.choice([None, .19, .25]), delt_PA=rng.choice([0., u(-80, 80, 1)]), pixscale=rng.choice([.18, .18, .13]),
             inst_res=rng.choice([39., u(20, 60, 1)]), slit_width=u(.4, .8), nrow=rng.choice([3, 7, 8, 9, 10.5]),
             nymin=rng.choice([None, 7, 8, 9]), psf_fwhm=u(.3, .65), psf_type=rng.choice(["Gaussian", "Gaussian", "Moffat"]),
             nsub=rng.choice([1, 1, 2, None]), pad=rng.choice([.5, .3, 1., None]), nw=rng.choice([9, 10, 11, 12]),
             dlam=u(1.8, 2.6), lamshift=rng.choice([0., u(-1, 1)]), kin=rng.choice(["K0", "K0", "K1", None]),
             intp=rng.choice(["I0", "I0", "S0", "I1", None]), special=rng.choice(["", "", "", "", "", "pos", "eff"]),
             velocity=rng.random() < .12)
    r = rng.random()
    if r < .05 and not s["special"]:
        s["inst_res"] = 0.                  # no broadening by the instrument
    elif r < .08:
        s["pad"] = 0.
    if s["nymin"] is None and s["nsub"] is None:
        s["nsub"] = 1                       # (13 rows, two subpixels: slow)
    if s["velocity"]:
        s["special"] = ""
        s["sigma0"] = abs(s["sigma0"])
    if line == "Hbeta":
        s["z"] = round(s["z"] + 1., 4)
    return s


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3])
    specs = [spec(rng)]
    for _ in range(n - 1):
        o = spec(rng)
        if rng.random() < .6:               # near-twin: only some inputs differ
            o2 = dict(specs[0])
            keys = [k for k in o2 if k not in ("line", "z", "velocity", "special", "nsub", "nymin")]
            for k in rng.sample(keys, rng.choice([1, 1, 2, 4])):
                for _ in range(8):
                    if o[k] != o2[k]:
                        break
                    o = spec(rng)
                o2[k] = o[k]
            o = o2
        specs.append(o)
    ops, heavy = [], 0
    for _ in range(rng.randrange(4, 11)):
        k = rng.randrange(n)
        op = rng.choice(["slit", "slit", "slit", "ifu", "ifu", "basis", "later", "later", "direct", "fit", "bad", "cut-slit",
                         "cut-slit", "cut-ifu", "copy", "scribble", "bent"])
        if op in ("ifu", "cut-ifu"):
            heavy += 1
            if heavy > 3 or specs[k]["velocity"]:
                op = "slit"
        o = dict(op=op, s=k)
        if op.startswith("cut"):
            o.update(u=round(rng.random(), 4), v=round(rng.random(), 4),
                     exc=rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError"]))
        elif op == "bad":
            o["drop"] = rng.choice(["wave", "Va", "re_arcsec", "PSF_FWHM", "band", "rt", "pixscale", "line_primary"])
        elif op == "later":
            o["ifu"] = rng.random() < .3
        elif op == "copy":
            o["how"] = rng.choice(["copy", "pickle", "deepcopy"])
        elif op == "fit":
            o["go"] = rng.random() < .5
        elif op == "bent":
            o["fac"] = round(rng.uniform(.5, 2.), 2)
        ops.append(o)
    return dict(specs=specs, ops=ops)


def wave_of(s):
    if s["velocity"]:
        return np.linspace(-900., 900., 13)
    lam0 = world.LINES[s["line"]][2][0] * (1. + s["z"])
    h = s["dlam"] * (s["nw"] - 1) / 2.
    return np.linspace(lam0 - h, lam0 + h, s["nw"]) + s["lamshift"]


def kwargs(s, prof, wave):
    primary, band, _, _ = world.LINES[s["line"]]
    kw = dict(z=s["z"], ID=3, Va=s["Va"], rt=s["rt"], sigma0=s["sigma0"], yshift=s["yshift"], n=s["n"], re_arcsec=s["re"],
              q=s["q"], delt_PA=s["delt_PA"], wave=wave, instrument_name="SIM", pixscale=s["pixscale"],
              instrument_resolution=s["inst_res"], slit_width=s["slit_width"], slit_length=s["nrow"] * s["pixscale"],
              PSF_FWHM=s["psf_fwhm"], PSF_type=s["psf_type"], band=band, line_primary=primary, linegroup_name=s["line"])
    for key, name in (("q0", "q0"), ("nymin", "nymin"), ("nsub", "nSubpixels"), ("pad", "pad_factor")):
        if s[key] is not None:
            kw[name] = s[key]
    if s["velocity"]:
        kw["spec_type"] = "velocity"
    if s["special"] == "pos":
        kw["do_position_wave_shift"] = True
    elif s["special"] == "eff":
        kw["do_inst_res_conv_effective"] = True
    if prof.get(s["kin"]) is not None:
        kw["kinProfile"] = prof[s["kin"]]
    if prof.get(s["intp"]) is not None:
        kw["intensityProfile"] = prof[s["intp"]]
    return kw


def profiles(misfit):
    g = misfit.galaxy.Galaxy(n=1.3, q0=.21, re_arcsec=.44)
    return {"K0": misfit.KinProfileFiducial(), "K1": misfit.KinProfileFiducial(),
            "I0": misfit.IntensityProfileFiducial(g), "I1": misfit.IntensityProfileFiducial(g),
            "S0": misfit.IntensityProfileSersicExpScale(galaxy=g)}


def rows(s):
    length = max(s["nrow"] * s["pixscale"], (13 if s["nymin"] is None else s["nymin"]) * s["pixscale"])
    return int(np.ceil(length / s["pixscale"]))


def reference(misfit, s, ifu):
    if s["velocity"] or s["special"]:
        return None
    o = misfit.KinModel2DOptions()
    ny = rows(s)
    p = dict(q=s["q"], q0=.19 if s["q0"] is None else s["q0"], n=s["n"], re=s["re"], delt_PA=s["delt_PA"],
             pixscale=s["pixscale"], slit_width=s["slit_width"], psf_fwhm=s["psf_fwhm"], psf_type=s["psf_type"], yspace=None,
             inst_res=s["inst_res"], nsub=2 if s["nsub"] is None else s["nsub"], pad=.5 if s["pad"] is None else s["pad"],
             adaptive=o.adaptive_upsample_wave, absval=o.absvalsigma, floor=o.sigma_floor,
             intprof="expscale" if s["intp"] == "S0" else "fiducial")
    _, _, lines, ratios = world.LINES[s["line"]]
    with np.errstate(all="ignore"):
        return refmodel.forward(p, [s["Va"], s["rt"], s["sigma0"], s["yshift"], s["z"]], wave_of(s), ny, ny / 2. - .5,
                                lines, ratios, ifu=ifu)


def generate(misfit, s, prof, ifu, wave=None):
    f = misfit.mock.generate_mock_IFU_cube if ifu else misfit.mock.generate_mock_slit_obs
    return f(**kwargs(s, prof, wave_of(s) if wave is None else wave))


def direct(misfit, s, prof, ifu):
    """The model itself, evaluated with the mock's parameters, without the mock functions."""
    ny = rows(s)
    kw = kwargs(s, prof, wave_of(s))
    inst = misfit.instrument.Spectrograph(
        instrument_name="SIM", PSF_FWHM=s["psf_fwhm"], PSF_type=s["psf_type"], yspace_dither_arc=None,
        pixscale=s["pixscale"], slit_width=s["slit_width"], slit_length=ny * s["pixscale"],
        instrument_resolution=s["inst_res"], band=kw["band"])
    gal = misfit.galaxy.Galaxy(z=s["z"], ID=3, n=s["n"], re_arcsec=s["re"], delt_PA=s["delt_PA"], q=s["q"],
                               q0=kw.get("q0", .19), dither=False, generate_model=True)
    sp = misfit.galaxy.ObsSpectrum2D(band=kw["band"], wave=kw["wave"], line_primary=kw["line_primary"],
                                     linegroup_name=s["line"], no_continuum_subtraction=True,
                                     spec_type=kw.get("spec_type", "wave"))
    sp.shape = [ny, len(kw["wave"])]
    if not s["velocity"]:
        sp.initialize_lineset()
    sp.m0 = ny / 2. - .5
    sp.ypos = sp.m0
    gal.set_spectrum_2D(sp)
    th = misfit.Theta2DSettingsFiducial(theta=np.array([s["Va"], s["rt"], s["sigma0"], s["yshift"], s["z"]]),
                                        theta_vary=np.array([False] * 5), theta_bounds=np.array([None] * 5),
                                        theta_linked_posteriors=None)
    intp = kw.get("intensityProfile")
    if intp is None:
        intp = misfit.IntensityProfileFiducial(gal)
    else:
        intp.update_values(galaxy=gal)
    opt = misfit.KinModel2DOptions(nSubpixels=kw.get("nSubpixels", 2), pad_factor=kw.get("pad_factor", .5),
                                   do_position_wave_shift=s["special"] == "pos",
                                   do_inst_res_conv_effective=s["special"] == "eff")
    k = misfit.KinModel2D(gal, thetaSettings=th, kinProfile=kw.get("kinProfile") or misfit.KinProfileFiducial(),
                          intensityProfile=intp, kinModelOptions=opt, spec_type=kw.get("spec_type", "wave"), no_scale=True)
    if ifu:
        k.make_3D_int_model(galaxy=gal, instrument=inst, theta_fitting=[])
        return k.model_cube
    k.make_model(galaxy=gal, instrument=inst, theta_fitting=[])
    return k.model


def plain_args(kw):
    return {k: plain(v) for k, v in kw.items() if k not in ("kinProfile", "intensityProfile")}


def run(misfit, case, sim):
    specs = case["specs"]
    fresh = {}

    def fresh_of(k, ifu):
        key = (k, ifu)
        if key not in fresh:
            fresh[key] = sub_run(sim, "fresh%d%s" % (k, "i" if ifu else "s"),
                                 lambda s: s.sut(lambda: np.array(generate(misfit, specs[k], profiles(misfit), ifu))))
        return fresh[key]

    for k in range(len(specs)):                       # before anything else happens here
        fresh_of(k, False)
        if any(o["s"] == k and ("ifu" in o["op"] or o.get("ifu") or o["op"] == "direct") for o in case["ops"]) \
                and not specs[k]["velocity"]:
            fresh_of(k, True)
    seams.install_all(sim)
    prof = profiles(misfit)
    returned, bases = [], {}
    prev = ["", -1]

    def judge(what, k, ifu, got):
        s = specs[k]
        got = np.asarray(got, dtype=float)
        shape = (len(wave_of(s)), rows(s), rows(s)) if ifu else (rows(s), len(wave_of(s)))
        sim.check(got.shape == shape, "shape", lambda: "the %s of set-up %d has shape %r, asked for %r" % (
            what, k, got.shape, shape))
        w = fresh_of(k, ifu)
        r = differs({"mock": got}, {"mock": w})
        sim.event("made", what, k, digest(got))
        sim.check(r is None, "not-repeatable/" + what, lambda: (
            "%s of set-up %d after %r differs from the same in a fresh process: %s" % (what, k, prev, r)))
        key = ("ref", k, ifu)
        if key not in fresh:
            fresh[key] = reference(misfit, s, ifu)
        if fresh[key] is not None:
            ref = fresh[key]
            tol = 1e-6 * np.nanmax(np.abs(ref))
            sim.check(np.allclose(got, ref, rtol=1e-6, atol=tol, equal_nan=True), "not-the-model/" + ("ifu" if ifu else "slit"),
                      lambda: "%s of set-up %d is not the model at its parameters (largest difference %.3g of peak %.3g)" % (
                          what, k, np.nanmax(np.abs(got - ref)), np.nanmax(np.abs(ref))))
            sim.stats["reference-comparisons"] += 1

    def guarded(fn, kw, k, what):
        """fn() with the passed arguments checked for changes afterwards, however it ends."""
        before = plain_args(kw)
        try:
            return fn()
        finally:
            r = diff(plain_args(kw), before)
            sim.check(r is None, "argument-changed", lambda: "%s of set-up %d changed its caller's arguments%s" % (what, k, r))

    for o in case["ops"]:
        op, k = o["op"], o["s"]
        s = specs[k]
        same_k = prev[1] == k
        sim.states.add((op, prev[0], s["kin"], s["intp"], same_k))
        sim.stats["op:" + op] += 1
        kw = kwargs(s, prof, wave_of(s))
        slit, cube = misfit.mock.generate_mock_slit_obs, misfit.mock.generate_mock_IFU_cube
        if op in ("slit", "ifu"):
            a = guarded(lambda: sim.sut((cube if op == "ifu" else slit), **kw), kw, k, op)
            judge(op, k, op == "ifu", a)
            returned.append((a, np.array(a), op, k))
        elif op in ("cut-slit", "cut-ifu"):
            ifu = op == "cut-ifu"
            f = cube if ifu else slit
            tr = seams.LineTracer(sim)
            tr.seen = {}

            def count():
                tr.run(lambda: f(**kwargs(s, profiles(misfit), wave_of(s))))
                return tr.seen
            seen = sim.isolated(count)
            n = seams.pick_line(seen, o["u"], o["v"])
            if n is not None:
                guarded(lambda: sim.attempt(lambda: tr.run(lambda: f(**kw), n, o["exc"])), kw, k, op)
                tr.target = None
                core.collect()
                sim.disarm()
                if tr.where:
                    sim.stats["interrupted-generations"] += 1
            a = guarded(lambda: sim.sut(f, **kw), kw, k, op)
            judge(op, k, ifu, a)
            returned.append((a, np.array(a), op, k))
        elif op == "basis":
            bases[k] = sim.sut(misfit.mock.generate_basic.generate_mock_basis, **kw)
        elif op == "later":
            if k in bases:
                km, gal, inst = bases.pop(k)
                ifu = bool(o.get("ifu")) and not s["velocity"]
                if ifu:
                    sim.sut(km.make_3D_int_model, galaxy=gal, instrument=inst, theta_fitting=[])
                else:
                    sim.sut(km.make_model, galaxy=gal, instrument=inst, theta_fitting=[])
                judge("later", k, ifu, km.model_cube if ifu else km.model)
        elif op == "direct":
            judge("direct", k, False, sim.sut(direct, misfit, s, prof, False))
            if not s["velocity"] and (k, True) in fresh and rows(s) <= 10:
                judge("direct", k, True, sim.sut(direct, misfit, s, prof, True))
        elif op == "bad":
            bad = dict(kw)
            bad[o["drop"]] = None
            val, exc = guarded(lambda: sim.attempt(lambda: slit(**bad)), bad, k, op)
            sim.stats["failed-generations" if exc is not None else "odd-generations"] += 1
            exc = None
            core.collect()
        elif op == "bent":                            # another mock of its own, never compared
            bent = dict(kw, Va=s["Va"] * o["fac"], rt=s["rt"] * o["fac"], re_arcsec=s["re"] * o["fac"], n=.8, q=.5,
                        sigma0=abs(s["sigma0"]) * o["fac"])
            guarded(lambda: sim.sut(slit, **bent), bent, k, op)
        elif op == "copy":
            # the caller replaces a shared profile by a copy of it
            for name in (s["kin"], s["intp"]):
                if name is not None:
                    p = prof[name]
                    prof[name] = {"copy": copy.copy, "deepcopy": copy.deepcopy,
                                  "pickle": lambda x: pickle.loads(pickle.dumps(x))}[o["how"]](p)
        elif op == "scribble":
            for j, (a, was, name, kk) in enumerate(returned[-2:]):
                a[...] = -7.
                returned[len(returned) - len(returned[-2:]) + j] = (a, np.array(a), name, kk)
        elif op == "fit":
            c = fit_cfg(s)
            kk = {}
            if s["kin"]:
                kk["kinProfile"] = prof[s["kin"]]
            if s["intp"]:
                kk["intensityProfile"] = prof[s["intp"]]
            w = world.build(misfit, c, None, (), **kk)
            if o.get("go"):
                sim.sut(w.fit.fit)
            else:
                sim.sut(w.fit.setup_model)
                sim.sut(w.fit.update_model, [111., .3, 44.])
        for a, was, name, kk in returned:
            sim.check(same(a, was), "returned-array-changed",
                      lambda: "%s %d changed an array returned by an earlier %s of set-up %d" % (op, k, name, kk))
        prev[0], prev[1] = op, k


def fit_cfg(s):
    import random
    return world.gen_cfg(random.Random(int(s["re"] * 1000)), ny=8, nw=9, line="Halpha", z=2.1, vary=[True] * 3 + [False] * 2,
                         linked="none", nstep=2, nburn=1, nwalk=8, nsub=1, cont=False, prior="auto", n=1.7, delt_PA=31.,
                         intprof="expscale" if s["intp"] == "S0" else "fiducial", sig_bounds=[0., 200.])


def nontrivial(case, r):
    return sum(o["op"] in EVAL or o["op"] == "direct" for o in case["ops"]) >= 2 and len(case["ops"]) >= 3


def valid(case):
    return bool(case["ops"])
