"""C09: spectra are prepared for fitting exactly once, all or nothing."""
import copy
import pickle

from props.common import *
from props import common

ID = "C09"
LEVEL = "fault_enumeration"
QUICK, THOROUGH = 420, 6000
RULE = ("a case is one observation (continuum or not, given or default ranges, masks, weighting, offset, angles, dither) and a seeded sequence of "
        "3-9 operations on it: direct preparation, fits, copies, pickles, galaxies sharing the spectrum or its arrays, preparations failing for "
        "missing inputs or interrupted at a seeded source line or table read; after each every spectrum is compared with its initial state or with "
        "one fresh preparation in another process; non-trivial: an interrupted or failing preparation, or two requests for one spectrum")
STATES = "distinct (operation, interrupted where, how many spectra are prepared, two operations before) tuples"
ASSUMPTIONS = ["an interrupt may come at any source line of the package",
               "the misalignment angle, which preparing stores in the galaxy, may be there before the spectrum is prepared"]
SIMPLE = [("cfg.cont", False), ("cfg.bad_frac", 0.), ("cfg.weighting", "none"), ("mask", "given"), ("angles", False), ("cfg.nsub", 1)]
OPS = ["prep", "prep", "prep", "fit", "fit", "fit", "copy", "pickle", "share", "arrays", "model", "yprof", "cut", "cut", "cut", "cut", "read",
       "bad", "bad", "run", "reload", "other", "other"]
NAMES = dict(names="linenames", lines="restwave", cutoff="band_cutoff", full="wave_full_range_rest", line="wave_line_range_rest",
             masked="mask_lines_wave_range_rest")


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    c = world.gen_cfg(rng, cont=rng.random() < .45, nburn=0, nstep=2, nsub=1)
    c["weighting"] = rng.choice(["up-edges", "up-edges", "none", "optimal"])
    c["bad_frac"] = rng.choice([0., .04, .1])
    if rng.random() < .2:
        c["snr"] = round(rng.uniform(1., 4.), 2)
    if rng.random() < .2:
        c["ny"] = rng.randint(14, 30)
    ops = [dict(op=rng.choice(OPS), k=rng.randrange(6), u=round(rng.random(), 5), v=round(rng.random(), 5),
                bad=rng.choice(["pixscale", "range", "spec1D", "flux", "band"]), exc=rng.choice(["KeyboardInterrupt"] * 4 + ["RuntimeError"]),
                err=rng.choice(["EIO", "EACCES", "EMFILE"]))
           for _ in range(rng.randint(3, 9))]
    def tables():
        """The user's own tables of lines, ranges and thresholds in place of the packaged ones."""
        return dict(which=sorted(n for n in NAMES if rng.random() < .5), shift=round(rng.uniform(-1., 1.), 2), ratio=round(rng.uniform(.2, .5), 3),
                    cutoff=rng.choice([.9, 1.3, 4., 30.]), full=round(rng.uniform(1.2, 3.), 2), line=round(rng.uniform(.55, .95), 2),
                    masked=round(rng.uniform(.3, .5), 2), units="timesMedianErr")
    own = tables() if rng.random() < .25 else None
    other = {}
    for k in ("tables", "mask", "weight", "ranges", "sky", "dither", "angles", "errs"):      # the other one differs in some of these
        if rng.random() < .35:
            other[k] = dict(tables=tables(), mask=rng.choice(["given", "none"]), weight=rng.random() < .5, ranges=rng.choice(["given", "default"]),
                            sky=rng.random() < .5, dither=False, angles=rng.random() < .5, errs=None)[k]
    oc = {k: v for k, v in world.gen_cfg(rng, cont=c["cont"]).items() if k in (
        "z", "data_seed", "snr", "slit_width", "psf_fwhm", "inst_res", "m0off", "delt_PA", "line", "re") and rng.random() < .25}
    if rng.random() < .3:
        oc["weighting"] = rng.choice(["up-edges", "none", "optimal"])
    return dict(cfg=c, ops=ops, tables=own, other=other, other_cfg=oc,
                fresh=rng.randrange(1, 1 << 20) if rng.random() < .03 else None, mask=rng.choice(["given", "given", "none", "nan"]), angles=rng.random() < .3, dither=rng.random() < .12,
                ranges=rng.choice(["given", "given", "default"]), sky=rng.random() < .3, weight=rng.random() < .3,
                errs=rng.choice([None, None, None, "nan", "nan", "inf", "zero", "neg"]), profile=rng.random() < .3,
                edge="none" if c["weighting"] == "optimal" else rng.choice(["none", "none", "none", "low", "high", "both"]), debug=rng.random() < .06)


def arrays(case):
    f, e, mask, w, f1, e1 = world.data(case["cfg"])
    if case["mask"] == "nan":
        rs = np.random.RandomState(case["cfg"]["data_seed"] % 1000)
        f[rs.random_sample(f.shape) < .03] = np.nan
    if case.get("errs"):
        rs = np.random.RandomState(case["cfg"]["data_seed"] % 997)
        e[rs.random_sample(e.shape) < .03] = {"nan": np.nan, "inf": np.inf, "zero": 0., "neg": -1.}[case["errs"]]
    ny = f.shape[0]
    if case.get("edge") in ("low", "both"):          # another source at the end of the slit
        f[:1 + ny // 10] = np.abs(f).max()
    if case.get("edge") in ("high", "both"):
        f[ny - 1 - ny // 10:] = np.abs(f).max()
    if case["sky"]:
        e[:, 2] *= 12.
        e1[2] *= 12.
    return f, e, mask, w, f1, e1


def write_tables(case, d):
    t, c = case["tables"], case["cfg"]
    primary, band, lines, ratios = world.LINES[c["line"]]
    names = [primary] + ["XX%d" % n for n in range(1, len(lines))]
    half = c["dlam"] * c["nw"] / 2. / (1. + c["z"])
    text = dict(names="# name lineset\nHalpha HA6565\n%s %s\n" % (c["line"] if c["line"] != "Halpha" else "none", ",".join(names)),
                lines="# linename restwave strength\n" + "".join("%s %.3f %.4f\n" % (n, l + t["shift"], x if x == 1. else t["ratio"])
                                                                 for m in (names, ["OIII5008", "OIII4960"][:len(lines)])
                                                                 for n, l, x in zip(m, lines, ratios) if m is names or n not in names),
                cutoff="# band sn_cutoff units\nZZ 1. timesMedianErr\n%s %s %s\n" % (band, t["cutoff"], t["units"]))
    for n in ("full", "line", "masked"):
        text[n] = "# linename wave_l wave_u\n%s %.3f %.3f\n" % (primary, lines[0] - half * t[n] * (4 if n == "full" and c["cont"] else 1),
                                                              lines[0] + half * t[n] * (4 if n == "full" and c["cont"] else 1))
    os.makedirs(d, exist_ok=True)
    out = {}
    for n in t["which"]:
        if n == "names" and "lines" not in t["which"]:
            continue                  # these names are only in the own table
        out[n] = os.path.join(d, n + ".dat")
        with open(out[n], "w") as f:
            f.write(text[n])
    return out


def galaxy(misfit, case, arr, d):
    c = case["cfg"]
    g = world.galaxy(misfit, c, arr, with_1d=True)
    g.dither = case["dither"]
    g.debug = bool(case.get("debug"))
    if case.get("profile"):
        g.spec1D.extraction_spatial_profile = np.exp(-.5 * (np.arange(c["ny"]) - c["ny"] / 2.) ** 2)
    if case["mask"] == "none":
        g.spec2D.spec_mask = None
    if case["weight"]:
        g.spec2D.spec_weight = arr[2]
    if case["ranges"] == "default":
        s = g.spec2D
        s.wave_full_range_rest = s.wave_line_range_rest = s.mask_lines_wave_range_rest = None
    if case.get("tables"):
        for n, f in write_tables(case, os.path.join(d, "tables-%s" % digest([case["tables"], case["cfg"]])[:8])).items():
            setattr(g.spec2D, NAMES[n] + "_param_filename", f)
            if n in ("full", "line", "masked"):
                setattr(g.spec2D, NAMES[n], None)
    if case["angles"]:
        g.delt_PA = None
        g.sersicPA = c["delt_PA"] + 20.
        g.spec2D.slit_PA = 30.
        g.set_pstamp(misfit.galaxy.Pstamp(img_PA=10.))
    return g


def facts(spec):
    # where a line table was found is not part of the spectrum
    return {k: plain(v) for k, v in spec.__dict__.items() if not k.endswith("_param_filename")}


# what measuring the emission profile adds to a spectrum
DERIVED = ("sigma_y_emis_obs", "sigma_y_emis_int", "D50", "sigma_y_emis_obs_err", "sigma_y_emis_int_err", "D50_err")


def reference(misfit, case):
    def go(s):
        arr = arrays(case)
        g = galaxy(misfit, case, arr, s.dir)
        inst = world.instrument(misfit, case["cfg"])
        tr = seams.LineTracer(s)
        tr.seen = {}
        n0 = s.counts["fs"]
        try:
            tr.run(lambda: g.spec2D.fit_prep_calcs(g, inst))
        except Exception as e:
            return None, repr(e), {}, 0, None
        out = facts(g.spec2D)
        w = [None]
        seen = {k: xs if len(xs) <= 8 else xs[:4] + xs[-4:] for k, xs in tr.seen.items()}
        return out, g.delt_PA, seen, s.counts["fs"] - n0, g.delt_PA_abs if hasattr(g, "delt_PA_abs") else None
    return go


def from_tables(sim, case, f, what):
    """The lines, ranges and thresholds of a prepared spectrum are those of the tables it was given, or the packaged ones."""
    c, t = case["cfg"], case.get("tables")
    which = [] if not t else [n for n in t["which"] if n != "names" or "lines" in t["which"]]
    _, band, lines, ratios = world.LINES[c["line"]]
    shift = t["shift"] if "lines" in which else 0.
    sim.check(np.allclose(np.asarray(f["restwave_arr"], float), np.array(lines) + shift, atol=6e-3, rtol=0.), "table/lines",
              lambda: "%s: lines at %s, should be at %s" % (what, f["restwave_arr"], np.array(lines) + shift))
    want = [x if x == 1. or "lines" not in which else t["ratio"] for x in ratios]
    sim.check(np.allclose(np.asarray(f["flux_ratio_arr"], float), want, atol=1e-3), "table/ratios", lambda: "%s: line ratios %s, should be %s" % (
        what, f["flux_ratio_arr"], want))
    cut = t["cutoff"] if "cutoff" in which else {"K": 2., "H": 3.}[band]
    sim.check(abs(float(f["band_cutoff"]) - cut) < 1e-9, "table/cutoff", lambda: "%s: sky threshold %s, should be %s" % (what, f["band_cutoff"], cut))
    half = c["dlam"] * c["nw"] / 2. / (1. + c["z"])
    for n in ("full", "line", "masked"):
        if n in which:
            h = half * t[n] * (4 if n == "full" and c["cont"] else 1)
            if f[NAMES[n]] is None:
                continue                        # not needed for this data
            sim.check(np.allclose(f[NAMES[n]], [lines[0] - h, lines[0] + h], atol=6e-3, rtol=0.), "table/" + n, lambda: (
                "%s: range %s, should be %s" % (what, f[NAMES[n]], (lines[0] - h, lines[0] + h))))


def fresh(misfit, sim, case):
    return reference(misfit, case)(sim)[0]


OPTIONS = dict(row_snr_cut=[0., .7, 2., 5.], weighting_type=["none", "up-edges", "optimal"], no_continuum_subtraction=[True, False],
               yoffset=[0., .3], band_cutoff=[None, 1., 8.])


class Item(object):
    """One galaxy and its 2D spectrum."""

    def __init__(self, gal, spec, inst, arr, given):
        self.gal, self.spec, self.inst, self.arr, self.given = gal, spec, inst, arr, given
        self.initial, self.initial1d = facts(spec), facts(gal.spec1D) if gal.spec1D is not None else None
        self.requests = 0
        self.extra = False


def run(misfit, case, sim):
    c = case["cfg"]
    want, angle, seen, nread, _ = sub_run(sim, "reference", reference(misfit, case), hash_value=False)
    seams.install_all(sim)
    arr = arrays(case)
    given = [a.copy() for a in arr]
    inst = world.instrument(misfit, c)
    inst0 = plain(inst)
    g = galaxy(misfit, case, arr, sim.dir)
    items = [Item(g, g.spec2D, inst, arr, given)]
    if want is None:
        # preparing this data fails: it has to fail cleanly
        for _ in range(2):
            _, e = sim.attempt(g.spec2D.fit_prep_calcs, g, inst)
            sim.check(e is not None, "not-repeatable", "preparing succeeded, but failed in a fresh process: " + str(angle))
            d = diff(facts(g.spec2D), items[0].initial)
            sim.check(d is None, "half-prepared", lambda: "a failed preparation changed the spectrum: " + d)
        for a, b in zip(arr, given):
            sim.check(np.array_equal(a, b, equal_nan=True), "input-changed", "a failed preparation changed the caller's arrays")
        sim.stats["unpreparable"] += 1
        return
    hist = []
    refs = {}
    from_tables(sim, case, want, "one preparation")
    if case.get("fresh"):
        d = os.path.join(sim.dir, "fresh")
        os.makedirs(d)
        d = diff(want, common.fresh_run(sim, case["fresh"], ID, "fresh", (case,), d), rtol=1e-9)
        sim.check(d is None, "interpreter", lambda: "one preparation gives something else in another interpreter: %s" % d)

    def fit_of(it, outs=(), **kw):
        s = world.settings(misfit, c)
        return misfit.fit.FitEmissionLines2D(galaxy=it.gal, instrument=it.inst, linegroup_name=c["line"], thetaSettings=s,
                                             kinModelOptions=world.model_options(misfit, c),
                                             mcmcOptions=world.mcmc_options(misfit, c, sim.dir, outs),
                                             kinProfile=misfit.KinProfileFiducial(), intensityProfile=world.intensity(misfit, c, it.gal),
                                             usetex=False, **kw)

    def look(op, may=()):
        """Every spectrum is as given or as after one fresh preparation; `may`: those that may be either now."""
        for n, it in enumerate(items):
            sp = it.spec
            have = facts(sp)
            if it.extra:
                have = {k: v for k, v in have.items() if k in want and k not in DERIVED}
            asked = it.requests > 0
            if sp.prepared_for_fitting:
                sim.check(asked or it in may, "unasked", lambda: "%s: spectrum %d is prepared without being asked to" % (op, n))
                d = diff({k: v for k, v in have.items()}, want, rtol=1e-9)
                sim.check(d is None, "prepared-wrong", lambda: "%s (after %s): spectrum %d differs from one fresh preparation: %s" % (
                    op, "-".join(hist), n, d))
                it.requests = max(it.requests, 1)
            else:
                sim.check(not asked, "not-prepared", lambda: "%s: spectrum %d is no longer prepared" % (op, n))
                # setting up a fit may fill in the names and wavelengths of the lines before the preparation
                skip = ("linenames_arr", "restwave_arr", "flux_ratio_arr") if it in may or getattr(it, "named", False) else ()
                it.named = bool(skip)
                d = diff({k: v for k, v in have.items() if k not in skip}, {k: v for k, v in it.initial.items() if k not in skip})
                sim.check(d is None, "half-prepared", lambda: "%s (after %s): spectrum %d is not prepared, but changed: %s" % (
                    op, "-".join(hist), n, d))
            if it.initial1d is not None and it.gal.spec1D is not None:
                d = diff(facts(it.gal.spec1D), it.initial1d)
                sim.check(d is None, "spec1d-changed", lambda: "%s: the 1D spectrum of galaxy %d changed: %s" % (op, n, d))
            for a, b in zip(it.arr, it.given):
                sim.check(np.array_equal(a, b, equal_nan=True), "input-changed", lambda: "%s: the caller's arrays changed" % op)
            sim.check(it.gal.spec2D is sp, "detached", lambda: "%s: galaxy %d no longer has its spectrum" % (op, n))
            if it.requests and case["angles"]:
                sim.check(it.gal.delt_PA is None or abs(it.gal.delt_PA - angle) < 1e-9, "angle", lambda: "%s: delt_PA %s, should be %s" % (
                    op, it.gal.delt_PA, angle))
        d = diff(plain(inst), inst0)
        sim.check(d is None, "instrument-changed", lambda: "%s: the instrument changed: %s" % (op, d))

    for j, o in enumerate(case["ops"]):
        op = o["op"]
        it = items[o["k"] % len(items)]
        may = []
        tag = op
        if op == "prep":
            # options may be given along: those it has already, or, once prepared, others (too late to matter)
            kw, keep = {}, {}
            r = sub_rng(sim.seed, "options", j)
            if r.random() < .5:
                names = [n for n in OPTIONS if n in it.spec.__dict__ and r.random() < .6]
                keep = {n: it.spec.__dict__[n] for n in names}
                kw = dict(keep)
                if it.spec.prepared_for_fitting and r.random() < .4:
                    kw = {n: r.choice(OPTIONS[n]) for n in names}
                tag = "prep with options"
            late = it.spec.prepared_for_fitting
            sim.sut(it.spec.fit_prep_calcs, it.gal, it.inst, **kw)
            if late:
                it.spec.__dict__.update(keep)
            it.requests += 1
        elif op == "fit":
            sim.sut(fit_of, it)
            it.requests += 1
        elif op == "model":
            f = sim.sut(fit_of, it)
            it.requests += 1
            sim.sut(f.setup_model)
            sim.sut(f.update_model, world.free_theta(c, world.random_theta(sub_rng(sim.seed, "model", j), c)))
        elif op == "run":
            f = sim.sut(fit_of, it, ("sampler", "bestfit"))
            it.requests += 1
            if not np.any(np.asarray(it.spec.fitting_weight_matrix)):
                continue
            sim.attempt(f.fit)
        elif op == "reload":
            p = os.path.join(sim.dir, "fit.bestfit")
            if os.path.exists(p):
                f = sim.sut(fit_of, it)
                it.requests += 1
                f.mcmcOptions.filename_bestfit_model = p
                sim.sut(f.reload_bestfit_model)
                n = Item(f.galaxy, f.galaxy.spec2D, inst, arr, given)
                n.requests = 1
                n.initial1d = None
                if not any(x.extra for x in items):
                    items.append(n)
                sim.sut(f.galaxy.spec2D.fit_prep_calcs, f.galaxy, f.instrument)
        elif op in ("copy", "pickle"):
            g2 = sim.sut(it.gal.copy) if op == "copy" else pickle.loads(pickle.dumps(it.gal))
            n = Item(g2, g2.spec2D, inst, arr, given)
            n.initial, n.initial1d, n.requests, n.extra, n.named = it.initial, it.initial1d, it.requests, it.extra, getattr(it, "named", False)
            items.append(n)
        elif op == "share":            # another galaxy object with the very same spectrum
            if it.requests == 0 or it.gal.delt_PA is None:      # an angle is the galaxy's own: have it calculated first
                sim.sut(it.spec.fit_prep_calcs, it.gal, inst)
                it.requests += 1
            g2 = copy.copy(it.gal)
            if not any(x.gal.spec2D is it.spec for x in items if x is not it):
                n = Item(g2, it.spec, inst, arr, given)
                n.initial, n.initial1d, n.extra = it.initial, it.initial1d, it.extra
                n.requests = it.requests
                sim.sut(g2.set_spectrum_2D, it.spec)
                sim.sut(it.spec.fit_prep_calcs, g2, inst)
                it.requests += 1
                n.requests = it.requests
                items.append(n)
        elif op == "arrays":           # another spectrum made from the same arrays
            g2 = galaxy(misfit, case, arr, sim.dir)
            items.append(Item(g2, g2.spec2D, inst, arr, given))
        elif op == "other":            # another galaxy with its own data and tables
            oc = dict(case, **case.get("other", {}))
            oc["cfg"] = dict(c, **case.get("other_cfg", {}))
            if "other" not in refs:
                refs["other"] = sub_run(sim, "other", reference(misfit, oc), hash_value=False)
            arr2 = arrays(oc)
            keep = [a.copy() for a in arr2]
            g2, i2 = galaxy(misfit, oc, arr2, sim.dir), world.instrument(misfit, oc["cfg"])
            _, e = sim.attempt(g2.spec2D.fit_prep_calcs, g2, i2)
            sim.check((e is None) == (refs["other"][0] is not None), "other-galaxy", lambda: "preparing another galaxy: %r here, %r in a fresh process" % (
                e, refs["other"][1] if refs["other"][0] is None else None))
            d = None if e is not None else diff(facts(g2.spec2D), refs["other"][0], rtol=1e-9)
            if e is None:
                from_tables(sim, oc, facts(g2.spec2D), "another galaxy prepared after %s" % "-".join(hist))
            sim.check(d is None, "other-galaxy", lambda: "another galaxy prepared after %s differs from its fresh preparation: %s" % ("-".join(hist), d))
            for a, b in zip(arr2, keep):
                sim.check(np.array_equal(a, b, equal_nan=True), "input-changed", "preparing another galaxy changed the caller's arrays")
            sim.stats["other-galaxies"] += 1
            e = None
        elif op == "yprof":
            if it.spec.prepared_for_fitting and not case["dither"]:
                st = np.random.get_state()
                from misfit.general import galaxy_utils
                sim.attempt(galaxy_utils.fit_emission_y_profile, it.spec, it.gal, it.inst, num_MC=2)
                for x in items:
                    x.extra = x.extra or x.spec is it.spec
        elif op == "cut":
            tr = seams.LineTracer(sim)
            tr.seen = None
            target = seams.pick_line(seen, o["u"], o["v"])
            how = o["k"] % 2
            _, e = sim.attempt(tr.run, (lambda: it.spec.fit_prep_calcs(it.gal, it.inst)) if how else (lambda: fit_of(it)), target, o["exc"])
            tag = "%s %s at %s" % (op, o["exc"], tr.where)
            if e is not None:
                # an error met inside a step with a fallback may surface as what the fallback meets
                sim.check(core.is_injected(e) or tr.where is not None and o["exc"] == "RuntimeError", "unexpected-error",
                          lambda: "%s: %r" % (tag, e))
                may = [x for x in items if x.spec is it.spec]
            elif tr.where is not None and o["exc"] == "RuntimeError":
                sim.stats["absorbed"] += 1          # a fallback of one of the fits took over
                return
            else:
                it.requests += 1
            e = None
            core.collect()
        elif op == "read":
            if nread:
                sim.arm("fs", int(o["u"] * nread), err=o["err"])
            _, e = sim.attempt(it.spec.fit_prep_calcs, it.gal, it.inst)
            sim.disarm()
            if e is not None:
                sim.check(core.is_injected(e), "unexpected-error", lambda: "%s: %r" % (tag, e))
                may = [it]
            else:
                it.requests += 1
            e = None
        elif op == "bad":
            # a preparation lacking an input fails; then the input is given
            b = o["bad"]
            sp = it.spec
            if sp.prepared_for_fitting:
                continue
            bi = inst
            if b == "pixscale":
                bi = inst.copy()
                bi.pixscale = None
            elif b == "range":
                keep, sp.wave_line_range_rest = sp.wave_line_range_rest, np.array([1., 2.])
            elif b == "spec1D":
                keep, it.gal.spec1D = it.gal.spec1D, None
            elif b == "flux":
                keep, sp.flux = sp.flux, None
            elif b == "band":
                keep, sp.band = sp.band, "nosuch"
            _, e = sim.attempt(sp.fit_prep_calcs, it.gal, bi)
            if b == "spec1D":
                it.gal.spec1D = keep
            if e is None:
                if b in ("pixscale", "spec1D") and diff(facts(sp), want, rtol=1e-9) is None:
                    it.requests += 1     # this input was not needed
                else:
                    sim.check(b not in ("flux", "band"), "silent", lambda: "preparing without %s returned normally" % b)
                    return               # prepared with that input: another spectrum now
            else:
                d = diff({k: v for k, v in facts(sp).items() if k not in ("wave_line_range_rest", "flux", "band")},
                         {k: v for k, v in it.initial.items() if k not in ("wave_line_range_rest", "flux", "band")})
                if not getattr(it, "named", False):
                    sim.check(d is None, "half-prepared", lambda: "preparing with bad %s failed and changed: %s" % (b, d))
                if b == "range":
                    sp.wave_line_range_rest = keep
                elif b == "flux":
                    sp.flux = keep
                elif b == "band":
                    sp.band = keep
            tag = "bad %s" % b
            e = None
        look(tag, may)
        hist.append(tag.split(":")[-1] if op == "cut" else tag)
        sim.states.add((tag, sum(x.spec.prepared_for_fitting for x in items), len(items), tuple(h.split(" ")[0] for h in hist[-3:-1])))
        sim.event("op", tag, len(items))
        if len(items) > 6:
            break
    # in the end every spectrum can be prepared
    for it in items:
        sim.sut(it.spec.fit_prep_calcs, it.gal, it.inst)
        it.requests += 1
    look("end")
    sim.event("end", digest({k: v for k, v in facts(items[0].spec).items() if k not in DERIVED}))


def nontrivial(case, r):
    ops = [o["op"] for o in case["ops"]]
    return bool(r["fired"]) or "bad" in ops or sum(o in ("prep", "fit", "model", "run") for o in ops) >= 2
