"""C10: 1D line-fit Monte Carlo errors are reproducible and reload exactly."""
import pickle

from props.common import *
from props import common
from sim import world1d

ID = "C10"
LEVEL = "exploration"
QUICK, THOROUGH = 260, 4000
RULE = ("a case is 2-3 one-dimensional fits (line sets of one or several lines, continuum orders, trims), sharing galaxies or not, and a seeded "
        "sequence of 4-10 operations: creating fits, fitting with new, reloaded or no errors, with or without a plot, refitting, correcting the "
        "dispersion, and fits cut by crashes, file errors, full disks or interrupts; non-trivial: a fault took effect, or another fit ran between "
        "creating and running a fit, or errors were reloaded")
STATES = "distinct (operation, which fit, plot, shared galaxy, fault, what the error file holds) tuples"
ASSUMPTIONS = ["numpy's global random state is seeded by the user before each fit", "fitting one object again starts from its previous best fit"]
SIMPLE = [("share", False), ("one.0.cont_order", 1), ("one.1.cont_order", 1)]
STUBS = STUBS + ["packaged line tables are parsed once per run"]
FRESH = .03
FAULTS = ["line", "line", "line", "fs", "fs", "crash", "full", "savefig", "memory"]


def warm(misfit):
    common.warm2d(misfit, fit=False)
    warm1d(misfit)


def warm1d(misfit):
    import random
    import tempfile
    d = tempfile.mkdtemp(prefix="misfit-warm-")
    try:
        sim = Sim({"seed": 1}, d)
        seams.install_all(sim)
        try:
            c = world1d.gen(random.Random(1), names=["Halpha", "NII"], num_MC=2)
            g, _ = world1d.galaxy(misfit, c)
            f = world1d.make_fit(misfit, c, g, world1d.instrument(misfit, c))
            f.fit(err_filename=os.path.join(d, "mc"), plot_filename=os.path.join(d, "p.pdf"))
            f.calculate_inst_corr_vel_disp(err_filename=os.path.join(d, "mc"))
        finally:
            sim.restore()
    except Exception:
        pass
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(rng, tier, i):
    n = rng.choice([2, 2, 3])
    one = [world1d.gen(rng) for _ in range(n)]
    share = rng.random() < .6
    for c in one:
        c["nan"] = rng.random() < .1
    if share:          # line sets of one spectrum
        ha = rng.random() < .75
        for k, c in enumerate(one):
            for key in ("z", "disp", "dz", "flux", "snr", "seed", "dlam", "cont", "maskname", "nan"):
                c[key] = one[0][key]
            c["names"] = rng.choice([["Halpha"], ["Halpha", "NII"], ["SII"], ["Halpha", "NII", "SII"]] if ha else [["OIII"], ["Hbeta"]])
            c["grid"] = "Halpha" if ha else "Hbeta"
    for c in one:
        if "SII" in c["names"] or c["names"][0] == "NII":
            c["trim"] = "range"
        c["num_MC"] = rng.choice([2, 3, 4, 6, 9])
        if rng.random() < .12:
            c["inst_res"] = round(c["disp"] * rng.uniform(.9, 1.6), 1)
        c["cont_order"] = min(c["cont_order"], 1)       # higher orders are too ill-conditioned to converge quickly
    if rng.random() < .06:         # more realisations, towards the default number
        one[0]["num_MC"] = rng.choice([52, 60, 101, 130])
    faint = rng.random() < .12
    for c in one:
        if faint:                  # faint lines: realisations differ wildly
            c["snr"] = one[0]["snr"] if share and c is not one[0] else round(rng.uniform(1., 3.), 2)
            c["num_MC"] = min(c["num_MC"], 6)
            if len(c["names"]) > 1:
                c["names"] = c["names"][:1]
    seeds = [rng.randrange(1000) for _ in range(2)]
    ops = [dict(op=rng.choice(["new", "new", "fit", "fit", "fit", "reload", "corr", "corr", "cut", "cut", "noerr", "refit", "again"]),
                k=rng.randrange(n), plot=rng.random() < .3, file=rng.randrange(2), seed=rng.choice(seeds),
                u=round(rng.random(), 5), v=round(rng.random(), 5), fault=rng.choice(FAULTS))
           for _ in range(rng.randint(4, 10) if not faint else 3)]
    if faint:
        for o in ops:
            o["op"] = rng.choice(["fit", "fit", "reload", "corr", "again"])
        ops[0]["op"] = "fit"
        ops[1].update(op=rng.choice(["corr", "reload", "fit"]), k=ops[0]["k"], file=ops[0]["file"])
    fresh = rng.randrange(1, 1 << 20) if not faint and rng.random() < FRESH else None
    return dict(one=one, share=share, ops=ops, faint=faint, fresh=fresh)


def data(misfit, c):
    g, arr = world1d.galaxy(misfit, c)
    if c["nan"]:
        arr[1][5] = np.nan
        arr[1][40] = np.nan
    return g, arr


def values(fit):
    return world1d.result(fit)


def reference(misfit, case, k, seed):
    """A new fit alone in a process of its own."""
    def go(s):
        world1d.cache_tables(s, misfit)
        c = case["one"][k]
        g, _ = data(misfit, c)
        f = world1d.make_fit(misfit, c, g, world1d.instrument(misfit, c))
        tr = seams.LineTracer(s, files=("fit1D", "fit_io", "emission_lines"))
        tr.seen = {}
        n0 = dict(s.counts)
        np.random.seed(seed)
        p = os.path.join(s.dir, "mc")
        try:
            fn = lambda: f.fit(noPlot=True, err_filename=p)
            tr.run(fn) if any(o["fault"] == "line" and o["op"] == "cut" and o["k"] == k for o in case["ops"]) else fn()
        except Exception as e:
            return None, None, None, {}, {}, repr(e)
        if not np.isfinite(f.final_model).all() or abs(f.vel_disp) < 15.:
            return None, None, None, {}, {}, "degenerate"
        with open(p, "rb") as fh:
            mat = np.array(pickle.load(fh))
        out = values(f)
        f.calculate_inst_corr_vel_disp(err_filename=p)
        seen = {key: xs if len(xs) <= 12 else xs[:4] + xs[len(xs) // 2 - 2:len(xs) // 2 + 2] + xs[-4:] for key, xs in tr.seen.items()}
        return out, values(f), mat, seen, {key: s.counts[key] - n0.get(key, 0) for key in s.counts}, None
    return go


def fresh(misfit, sim, case, k, seed):
    r = reference(misfit, case, k, seed)(sim)
    return r[0], r[2], r[5]


def percentile(x, q):
    x = np.sort(np.asarray(x, dtype=float))
    p = (len(x) - 1) * q / 100.
    lo = int(np.floor(p))
    hi = min(lo + 1, len(x) - 1)
    return x[lo] + (p - lo) * (x[hi] - x[lo])


def errors(best, col):
    return np.array([best - percentile(col, 15.865), percentile(col, 84.135) - best])


RATIO = {"Halpha": [1.], "NII": [.333333, 1.], "Hbeta": [1.], "OIII": [1., .333333], "SII": [1., .261111]}


def model1d(c, x, theta):
    """Independent model of a 1D spectrum: z, dispersion, fluxes, continuum coefficients (in 1e-18)."""
    z, disp = theta[:2]
    out = np.zeros(len(x))
    for i, name in enumerate(c["names"]):
        for l, r in zip(world1d.WAVES[name], RATIO[name]):
            s = disp / world1d.C_KMS * l * (1 + z)
            g = np.exp(-.5 * ((x - l * (1 + z)) / s) ** 2)
            out += g / g.max() * theta[2 + i] * r / (s * np.sqrt(2 * np.pi))
    for j, a in enumerate(theta[2 + len(c["names"]):]):
        out += a * 1e-18 * x ** j
    return out


def check_fit(sim, c, given, fit, mat, what, faint=False):
    """The reported numbers against the data and the realisations they belong to."""
    nl = len(c["names"])
    best = np.concatenate([[fit.z, fit.vel_disp], np.asarray(fit.flux_arr, float), np.asarray(fit.cont_coeff, float)])
    x, y, e = (np.asarray(getattr(fit.spec1D_trim, k), float) for k in ("obswave", "flux", "flux_err"))
    m = model1d(c, x, best)
    sim.check(faint or np.allclose(np.asarray(fit.final_model), m, rtol=1e-4, atol=1e-6 * np.abs(m).max()), "model",
              lambda: "%s: the reported model is not the model at the reported parameters (max difference %.3g of %.3g)" % (
                  what, np.abs(fit.final_model - m).max(), np.abs(m).max()))
    w0 = np.searchsorted(given[0], x)
    sim.check(np.all(w0 < len(given[0])) and np.array_equal(given[0][w0], x) and np.array_equal(given[1][w0], y, equal_nan=True) and
              np.array_equal(given[2][w0], e, equal_nan=True), "trimmed", lambda: "%s: the trimmed spectrum differs from the caller's data" % what)
    lo, hi = (l * (1. + c["z"]) for l in world1d.trim_range(c))
    wi, wo = (np.sum((given[0] > lo + d) & (given[0] < hi - d)) for d in (1e-3, -1e-3))
    sim.check(wi <= len(x) <= wo and (x > lo - 1e-3).all() and (x < hi + 1e-3).all(), "trimmed-range", lambda: (
        "%s: fitted from %.2f to %.2f (%d points), should be %.2f to %.2f" % (what, x[0], x[-1], len(x), lo, hi)))
    if mat is None:
        return
    sim.check(np.shape(mat)[1] == len(best), "matrix-shape", lambda: "%s: realisations of shape %s for %d parameters" % (
        what, np.shape(mat), len(best)))
    err = np.vstack([np.reshape(fit.z_err, (1, 2)), np.reshape(fit.vel_disp_err, (1, 2)), np.reshape(fit.flux_arr_err, (nl, 2)),
                     np.reshape(fit.cont_coeff_err, (-1, 2))])
    for j in range(len(best)):
        if faint and not (np.isfinite(mat[:, j]).all() and np.isfinite(best[j])):
            continue
        w = errors(best[j], mat[:, j])
        scale = np.abs(mat[:, j] - best[j]).max() + 1e-10 * abs(best[j])
        sim.check(np.all(np.abs(w - err[j]) <= 1e-6 * scale), "percentiles",
                  lambda: "%s: parameter %d: uncertainties %s, the realisations give %s" % (what, j, err[j], w))


def run(misfit, case, sim):
    n = len(case["one"])
    world1d.cache_tables(sim, misfit)
    refs = {}

    faint = case.get("faint")       # such fits can end elsewhere by a difference in rounding: only judged by their own files

    def ref(k, seed):
        if faint:
            return None, None, None, {}, {}, None
        if (k, seed) not in refs:
            refs[k, seed] = sub_run(sim, "ref%d-%d" % (k, seed), reference(misfit, case, k, seed), hash_value=False)
            for (k2, s2), r in refs.items():
                if k2 == k and s2 != seed and r[2] is not None and refs[k, seed][2] is not None:
                    sim.check(not np.isfinite(r[2]).all() or not same(r[2], refs[k, seed][2], 0.), "seed-ignored", lambda: "fit %d: seeds %d and %d gave the same realisations" % (
                        k, s2, seed))
        return refs[k, seed]

    seams.install_all(sim)
    fs = sim.fs
    gals = [data(misfit, c) for c in case["one"]]
    if case["share"]:
        gals = [gals[0]] * n
    given = [[np.array(a) for a in g[1]] for g in gals]
    spec0 = [plain(g[0].spec1D.__dict__) for g in gals]
    insts = [world1d.instrument(misfit, c) for c in case["one"]]
    fits, fresh = [None] * n, [True] * n
    files = [None, None]       # what each error file holds: (k, seed, matrix)
    done = [None] * n          # the seed and file of the last finished fit with errors
    last = [None] * n
    ran = 0

    def new(k):
        fits[k] = sim.sut(world1d.make_fit, misfit, case["one"][k], gals[k][0], insts[k])
        fresh[k], done[k], last[k] = True, None, ran

    def path(j):
        return os.path.join(sim.dir, "mc%d" % j)

    def load(j):
        try:
            with open(path(j), "rb") as f:
                return np.array(pickle.load(f))
        except FileNotFoundError:
            return None
        except Exception as e:
            sim.check(False, "not-loadable", "file %d: %r" % (j, e))

    def compare(k, seed, what, corr=False, keys=None):
        if faint:
            return
        want = ref(k, seed)[1 if corr else 0]
        d = differs(values(fits[k]), want, 1e-9, keys)
        sim.check(d is None, "not-reproducible", lambda: "%s: fit %d (%s, seed %d): %s" % (what, k, "+".join(case["one"][k]["names"]), seed, d))

    if case.get("fresh"):
        k, seed = case["ops"][0]["k"], case["ops"][0]["seed"]
        d = os.path.join(sim.dir, "fresh")
        os.makedirs(d)
        v, m, bad = common.fresh_run(sim, case["fresh"], ID, "fresh", (case, k, seed), d)
        r = ref(k, seed)
        if r[5] is None:
            d = differs(v, r[0]) if bad is None else bad
            sim.check(d is None and same(m, r[2], 1e-9), "interpreter", lambda: "fit %d gives something else in another interpreter: %s" % (
                k, d or "the realisations differ"))
    hist = []
    for j, o in enumerate(case["ops"]):
        op, k, fl = o["op"], o["k"], o["file"]
        c = case["one"][k]
        plot = dict(noPlot=False, plot_filename=os.path.join(sim.dir, "p%d.pdf" % k)) if o["plot"] else dict(noPlot=True)
        seed = o["seed"]
        tag = "%s%s" % (op, "+plot" if o["plot"] else "")
        if op != "new" and fits[k] is None:
            new(k)
        if op == "again" and not fresh[k]:
            new(k)                       # the same fit, from the start
        if op in ("fit", "again", "cut", "noerr", "reload", "refit") and ref(k, seed)[5] is not None:
            np.random.seed(seed)
            _, e = sim.attempt(fits[k].fit, err_filename=path(fl), **plot)
            sim.check(e is not None or ref(k, seed)[5] == "degenerate", "not-repeatable", "a fit failing in a fresh process (%s) succeeded here" % ref(k, seed)[5])
            sim.stats["unfittable"] += 1
            return
        if op == "new":
            new(k)
        elif op in ("fit", "again", "refit"):
            if op == "refit" and fresh[k]:
                np.random.seed(seed + 1)
                sim.sut(fits[k].fit, noPlot=True, noErrors=True)
                fresh[k] = False
            if op != "refit" and not fresh[k]:
                new(k)
            np.random.seed(seed)
            sim.sut(fits[k].fit, err_filename=path(fl), **plot)
            ran += 1
            mat = load(fl)
            sim.check(mat is not None, "not-saved", "a finished fit saved no realisations")
            if fresh[k]:
                compare(k, seed, tag)
                sim.check(faint or same(mat, ref(k, seed)[2], 1e-9), "realisations", lambda: "%s: the saved realisations of fit %d are not those of "
                          "this fit alone" % (tag, k))
                sim.check(faint or np.any(mat != mat[0]), "not-perturbed", "every realisation is the same")
            check_fit(sim, c, given[k], fits[k], mat, tag, faint)
            files[fl] = (k, seed if fresh[k] else None, mat)
            done[k] = (seed if fresh[k] else None, fl, mat, values(fits[k]))
            fresh[k] = False
        elif op == "noerr":
            if not fresh[k]:
                new(k)
            keep = load(fl)
            np.random.seed(seed)
            sim.sut(fits[k].fit, noErrors=True, **plot)
            ran += 1
            compare(k, seed, tag, keys=("z", "vel_disp", "flux_arr", "cont_coeff", "model", "trim_wave", "trim_flux"))
            check_fit(sim, c, given[k], fits[k], None, tag, faint)
            sim.check(same(load(fl), keep, 0.) if keep is not None else load(fl) is None, "saved", "a fit without errors changed the error file")
            fresh[k] = False
            done[k] = None
        elif op == "reload":
            if files[fl] is None or files[fl][0] != k:
                continue
            new(k)
            np.random.seed(seed)
            sim.sut(fits[k].fit, reload_errors=True, err_filename=path(fl), **plot)
            ran += 1
            mat = load(fl)
            sim.check(same(mat, files[fl][2], 0.), "reload-changed-file", "reloading errors changed the file")
            check_fit(sim, c, given[k], fits[k], mat, tag, faint)
            if files[fl][1] is not None:
                compare(k, files[fl][1], tag)
            fresh[k] = False
            done[k] = (files[fl][1], fl, mat, values(fits[k]))
        elif op == "corr":
            if done[k] is None or files[fl] is None or files[fl][0] != k:
                continue
            st = np.random.get_state()[1].copy()
            before = values(fits[k])
            sim.sut(fits[k].calculate_inst_corr_vel_disp, err_filename=path(fl))
            mat = load(fl)
            sim.check(same(mat, files[fl][2], 0.), "corr-changed-file", "correcting the dispersion changed the saved realisations")
            R = c["inst_res"]
            fix = lambda v: np.sqrt(np.maximum(np.asarray(v, float) ** 2 - R ** 2, 0.))
            v = float(fix(fits[k].vel_disp))
            w = errors(v, fix(mat[:, 1]))
            sim.check(faint and not np.isfinite(mat).all() or abs(fits[k].vel_disp_inst_corr - v) <= 1e-6 * (v + 1e-3) and
                      np.all(np.abs(np.asarray(fits[k].vel_disp_inst_corr_err) - w) <= 1e-6 * (np.abs(w).max() + v + 1e-3)), "corrected",
                      lambda: "corrected dispersion %s (%s), the realisations give %s (%s)" % (
                          fits[k].vel_disp_inst_corr, fits[k].vel_disp_inst_corr_err, v, w))
            d = differs(values(fits[k]), before, 0., keys=[x for x in before if "inst_corr" not in x])
            sim.check(d is None, "corr-changed-fit", lambda: "correcting the dispersion changed the fit: %s" % d)
            sim.check(np.array_equal(st, np.random.get_state()[1]), "random-state", "correcting the dispersion used random numbers")
        elif op == "cut":
            if not fresh[k]:
                new(k)
            want, _, wmat, seen, counts, _ = ref(k, seed)
            f = o["fault"]
            keep = load(fl)
            plot = dict(noPlot=False, plot_filename=os.path.join(sim.dir, "p%d.pdf" % k)) if o["plot"] or f == "savefig" else dict(noPlot=True)
            tag = "cut " + f
            tr, target = None, None
            nfs = 9
            if f == "line":
                tr = seams.LineTracer(sim, files=("fit1D", "fit_io", "emission_lines"))
                target = seams.pick_line(seen, o["u"], o["v"])
            elif f == "savefig":
                sim.arm("savefig", 0, err="EIO")
            elif f == "memory":
                tr = seams.LineTracer(sim, files=("fit_io",))
                target = int(o["u"] * 16)
            else:
                sim.arm("fs", int(o["u"] * nfs), **({"crash": dict(exc="Crash"), "full": dict(act="full", err="ENOSPC")}.get(f) or
                                                    dict(err=("EIO", "ENOSPC", "EACCES")[int(o["v"] * 3)])))
            np.random.seed(seed)
            fn = lambda: fits[k].fit(err_filename=path(fl), **plot)
            if tr is not None:
                _, e = sim.attempt(tr.run, fn, target, "MemoryError" if f == "memory" else "KeyboardInterrupt")
            else:
                _, e = sim.attempt(fn)
            crashed = isinstance(e, SimCrash)
            sim.check(e is None or core.is_injected(e), "unexpected-error", lambda: "%s: %r" % (tag, e))
            failed = e is not None
            e = None
            core.collect()
            sim.disarm()
            fs.full = False
            mat = load(fl)
            new_ok = mat is not None and same(mat, wmat, 1e-9)
            old_ok = mat is None if keep is None else mat is not None and same(mat, keep, 0.)
            sim.check(new_ok or old_ok and failed, "lost-realisations", lambda: "%s at %s: the error file holds neither the previous realisations nor "
                      "those of this fit: %s" % (tag, tr and tr.where, None if mat is None else mat.shape))
            sim.check(new_ok or f != "savefig", "lost-realisations", "the plot failed, and the realisations of the fit are not saved")
            if new_ok and not old_ok:
                files[fl] = (k, seed, mat)
            if not failed:
                compare(k, seed, tag)
                done[k] = (seed, fl, mat, values(fits[k]))
                fresh[k] = False
            else:
                new(k)
                # the same fit can be made at once
                np.random.seed(seed)
                sim.sut(fits[k].fit, err_filename=path(fl), noPlot=True)
                compare(k, seed, "after " + tag)
                files[fl] = (k, seed, load(fl))
                done[k] = (seed, fl, files[fl][2], values(fits[k]))
                fresh[k] = False
            import matplotlib.pyplot as plt
            plt.close("all")
            ran += 1
        for g, a in zip(gals, given):
            for x, y in zip(g[1], a):
                sim.check(np.array_equal(x, y, equal_nan=True), "input-changed", lambda: "%s: the caller's spectrum changed" % tag)
        for g, s0 in zip(gals, spec0):
            d = diff(plain(g[0].spec1D.__dict__), s0)
            sim.check(d is None, "spec1d-changed", lambda: "%s: the galaxy's 1D spectrum changed: %s" % (tag, d))
        for q in range(n):                 # the results of the other fits stay
            if q != k and done[q] is not None:
                d = differs(values(fits[q]), done[q][3], 0., keys=[x for x in done[q][3] if "inst_corr" not in x])
                sim.check(d is None, "other-fit", lambda: "%s of fit %d changed the results of fit %d: %s" % (tag, k, q, d))
        hist.append(tag)
        sim.states.add((tag, k, case["share"], tuple(None if x is None else (x[0] == k, x[1] is None) for x in files), hist[-2] if len(hist) > 1 else None))
        sim.event("op", tag, k, digest(done[k][3]) if done[k] and not faint else "")


def nontrivial(case, r):
    ops = [o["op"] for o in case["ops"]]
    return bool(r["fired"]) or sum(x in ("fit", "again", "reload", "refit", "noerr") for x in ops) >= 2 or "reload" in ops
