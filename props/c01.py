"""C01: a model evaluation depends only on its parameters and inputs."""
import copy
import pickle

import numpy as np

from props.common import *
from props import common

ID = "C01"
LEVEL = "exploration"
QUICK, THOROUGH = 160, 2500
RULE = ("a case is a seeded history of 6-16 operations (build, evaluate, fail, interrupt at a chosen line, copy, pickle, "
        "evaluate 1D models) over up to four models sharing two galaxies, two instruments, kinematic and intensity "
        "profiles; non-trivial: at least two evaluations and (a fault, a copy or a shared object) in the history")
STATES = "distinct (operation, previous operation on the model, sharing pattern, upsampled?) tuples met"
ASSUMPTIONS = ["fresh evaluations for comparison run in their own forked process, so no process-wide state reaches them",
               "2D and IFU results are also compared with an independent reference model (1e-6), except with slit-position "
               "wavelength shifts switched on, which the reference leaves out",
               "interrupts arrive between lines of the package's Python code, not inside compiled calls",
               "bare attribute assignments on model objects by the caller are not part of a history"]

KINDS = ["slit", "slit", "slit", "ifu", "rot", "disp", "misalign"]
SIMPLE = [("cfg.0.psf_type", "Gaussian"), ("cfg.0.nsub", 1), ("cfg.0.bad_frac", 0.), ("cfg.0.cont", False)]


def warm(misfit):
    common.warm2d(misfit, fit=False)


def one_d_params(rng):
    return [rng.choice([None, 0., round(rng.uniform(.5, 4.), 2)]), round(rng.uniform(50, 250), 1), round(rng.uniform(.1, .5), 3)]


def gen(rng, tier, i):
    base = dict(cont=rng.random() < .1)
    cs = [world.gen_cfg(rng, **base)]
    if rng.random() < .3:
        cs[0]["pos_shift"] = True
    elif rng.random() < .15:
        cs[0]["eff_res"] = True
    if rng.random() < .3:
        cs[0]["yspace"] = round(rng.uniform(.7, 1.2), 2)
    c1 = dict(cs[0])
    o = world.gen_cfg(rng, cont=False)
    for k in ("n", "re", "q", "delt_PA", "re_mass", "q_mass", "ny", "nw", "dlam", "lamshift", "slit_width", "psf_fwhm",
              "psf_type", "inst_res", "nsub", "pad", "adaptive", "floor", "absval", "data_seed", "m0off", "bad_frac",
              "intprof", "z"):
        if rng.random() < .6 and (k != "z" or o["line"] == c1["line"]):
            c1[k] = o[k]
    if c1["absval"] != cs[0]["absval"] or rng.random() < .3:
        c1["sig_bounds"] = o["sig_bounds"]
    cs.append(c1)
    for c in cs:
        if rng.random() < .06 and not c["pos_shift"] and not c["eff_res"]:
            c["inst_res"] = 0.         # no broadening by the instrument
        c["geo"] = world.gen_geo(rng, .25)
    vary = [True, True, True, rng.random() < .6, rng.random() < .5]
    for c in cs:
        c["vary"] = vary
        c["linked"] = "none"
    heavy = 0
    nm = rng.choice([1, 2, 2, 3, 4])
    models = []
    for k in range(nm):
        kind = rng.choice(KINDS)
        models.append(dict(kind=kind, g=rng.randrange(2), inst=rng.randrange(2), kin=rng.choice([0, 0, 1, "own"]),
                           intp=rng.choice([0, 0, 1, "own"]), opt=rng.randrange(2),
                           xy=rng.choice([[0., 0.], [0., 0.], [round(rng.uniform(-.4, .4), 2), round(rng.uniform(-.2, .2), 2)]]),
                           npix=rng.choice([9, 11, 14]), meth=rng.choice(["optimal", "boxcar"]),
                           aper=rng.choice([None, round(rng.uniform(.2, .9), 2)]),
                           ext=rng.choice([None, round(rng.uniform(.8, 1.8), 2)])))
        models[-1]["theta0"] = theta_for(rng, cs, models[-1], [])
    ops, live, used = [], [], {}
    slots = list(range(nm))
    for _ in range(rng.randint(6, 12 if tier == "quick" else 18)):
        new = [s for s in slots if s not in live]
        if new and (not live or rng.random() < .35):
            s = new[0]
            live.append(s)
            ops.append(dict(op="make", m=s))
            continue
        s = rng.choice(live)
        m = models[s]
        r = rng.random()
        if r < .58:
            ops.append(dict(op="eval", m=s, theta=theta_for(rng, cs, m, used.setdefault(s, [])),
                            via=rng.choice(["make", "update"])))
        elif r < .84:
            ops.append(dict(op="fault", m=s, theta=theta_for(rng, cs, m, used.setdefault(s, [])), u=round(rng.random(), 4),
                            exc=rng.choice(["KeyboardInterrupt", "RuntimeError", "MemoryError"]),
                            via=rng.choice(["make", "update"])))
        elif r < .92:
            ops.append(dict(op="copy", m=s, how=rng.choice(["copy", "deepcopy", "pickle"]), keep=rng.random() < .5,
                            theta=theta_for(rng, cs, m, used.setdefault(s, []))))
        elif r < .96:
            ops.append(dict(op="bad", m=s, what=rng.choice(["length", "nan", "type"])))
        else:
            ops.append(dict(op="like", m=s))
    for s in live:
        ops.append(dict(op="eval", m=s, theta=theta_for(rng, cs, models[s], used.setdefault(s, [])), via="update"))
    return dict(cfg=cs, models=models, ops=ops)


def theta_for(rng, cs, m, used):
    if m["kind"] in ("disp", "misalign"):
        return []
    if m["kind"] == "rot":
        return one_d_params(rng)
    if used and rng.random() < .35:           # come back to an earlier point, or change one entry of it
        th = list(rng.choice(used))
        if rng.random() < .7:
            o = world.random_theta(rng, cs[m["g"]])
            j = rng.choice([j for j in range(5) if cs[m["g"]]["vary"][j]])
            th[j] = o[j]
        used.append(th)
        return th
    th = world.random_theta(rng, cs[m["g"]])
    used.append(th)
    return th


class Objects(object):
    """The objects of one history (or, fresh, of one evaluation)."""

    def __init__(self, misfit, case):
        self.misfit, self.case = misfit, case
        self.w, self.inst, self.kin, self.intp, self.opt = {}, {}, {}, {}, {}

    def gal(self, g):
        if g not in self.w:
            self.w[g] = world.build(self.misfit, self.case["cfg"][g])
        return self.w[g].gal

    def instr(self, k):
        if k not in self.inst:
            self.inst[k] = world.instrument(self.misfit, self.case["cfg"][k])
        return self.inst[k]

    def options(self, k):
        if k not in self.opt:
            self.opt[k] = world.model_options(self.misfit, self.case["cfg"][k])
        return self.opt[k]

    def kinprof(self, k):
        if k == "own":
            return self.misfit.KinProfileFiducial()
        if k not in self.kin:
            self.kin[k] = self.misfit.KinProfileFiducial()
        return self.kin[k]

    def intprof(self, k, gal):
        c = self.case["cfg"][0 if k == "own" else k]
        if k == "own":
            return world.intensity(self.misfit, c, gal)
        if k not in self.intp:
            self.intp[k] = world.intensity(self.misfit, c, gal)
        return self.intp[k]

    def make(self, m, theta):
        """Build a model and evaluate it at theta; returns the model."""
        kind = m["kind"]
        gal, inst = self.gal(m["g"]), self.instr(m["inst"])
        if kind in ("slit", "ifu"):
            c = self.case["cfg"][m["g"]]
            ts = world.settings(self.misfit, c)
            km = self.misfit.KinModel2D(gal, thetaSettings=ts, kinProfile=self.kinprof(m["kin"]),
                                        intensityProfile=self.intprof(m["intp"], gal),
                                        kinModelOptions=self.options(m["opt"]), no_scale=(kind == "ifu"))
            self.evaluate(m, km, theta, "make")
            return km
        A = self.misfit.model
        kw = dict(galaxy=gal, instrument=inst, extraction_width=m["ext"], extraction_method=m["meth"], xc=m["xy"][0],
                  nPixels=m["npix"], disp_aper_radius_arcsec=m["aper"])
        if kind == "disp":
            return A.AperModel1DDisp(**kw)
        if kind == "misalign":
            return A.AperModel1DDispMisalign(**kw)
        return A.AperModel1DRot(theta=np.array(theta, dtype=object), kinProfile=self.kinprof(m["kin"]),
                                intensityProfile=self.intprof(m["intp"], gal), yc=m["xy"][1], **kw)

    def evaluate(self, m, model, theta, via):
        kind = m["kind"]
        gal, inst = self.gal(m["g"]), self.instr(m["inst"])
        if kind in ("slit", "ifu"):
            free = world.free_theta(self.case["cfg"][m["g"]], theta)
            if kind == "slit":
                if via == "make" or model.aperModel is None:
                    model.make_model(galaxy=gal, instrument=inst, theta_fitting=free)
                else:
                    model.update_model(theta_fitting=free)
            else:
                if via == "make" or model.aperModel is None:
                    model.make_3D_int_model(galaxy=gal, instrument=inst, theta_fitting=free)
                else:
                    model.update_3D_int_model(theta_fitting=free)
        else:
            if kind == "rot":
                model.setAttr(theta=np.array(theta, dtype=object))
            model.calc_aper_correction()

    @staticmethod
    def result(m, model):
        if m["kind"] == "slit":
            return np.array(model.model)
        if m["kind"] == "ifu":
            return np.array(model.model_cube)
        return float(model.disp_aper_ratio)


def fresh(misfit, case, m, theta):
    """The same evaluation on new objects."""
    o = Objects(misfit, case)
    model = o.make(m, theta)
    out = [o.result(m, model)]
    if m["kind"] == "slit":
        out.append(float(model.model_llike()))
        out.append(float(model.model_chisq()))
    return out


def run(misfit, case, sim):
    seams.install_all(sim)
    objs = Objects(misfit, case)
    models, last, what = {}, {}, {}
    given = {}
    cache = {}

    def want(m, theta):
        k = repr((m, theta))
        if k not in cache:
            cache[k] = sim.isolated(fresh, misfit, case, m, theta)
        return cache[k]

    def compare(s, theta, model, how):
        m = case["models"][s]
        exp = want(m, theta)
        got = objs.result(m, model)
        sim.event("eval", s, how, digest(got))
        sim.stats["evaluations"] += 1
        sim.check(same(got, exp[0], 1e-9), "differs-from-fresh/" + m["kind"], lambda: (
            "%s model %d after %s: evaluated at %s it differs from a fresh model by %.3g of its maximum; history %s" % (
                m["kind"], s, how, theta, np.abs(np.asarray(got) - exp[0]).max() / np.abs(exp[0]).max()
                if np.shape(got) == np.shape(exp[0]) else np.nan, what.get(s))))
        c, o = case["cfg"][m["g"]], case["cfg"][m["opt"]]
        if m["kind"] in ("slit", "ifu") and not o["pos_shift"] and not o["eff_res"]:
            ic = case["cfg"][m["inst"]]
            p = dict(c, **{k: ic[k] for k in ("pixscale", "slit_width", "psf_fwhm", "psf_type", "yspace", "inst_res")})
            p.update({k: o[k] for k in ("nsub", "pad", "adaptive", "absval", "floor")})
            p["intprof"] = case["cfg"][0 if m["intp"] == "own" else m["intp"]]["intprof"]
            spec = objs.gal(m["g"]).spec2D
            ref = ref_model(p, spec, theta, scale=True, ifu=m["kind"] == "ifu", model=got)
            sim.check(same(got, ref, 1e-6, 1e-7 * np.abs(ref).max()), "differs-from-reference/" + m["kind"], lambda: (
                "%s model %d after %s: at %s it differs from the reference model by %.3g of its maximum" % (
                    m["kind"], s, how, theta, np.abs(got - ref).max() / np.abs(ref).max())))
        if m["kind"] == "slit":
            sim.check(same(float(model.model_llike()), exp[1], 1e-9) and same(float(model.model_chisq()), exp[2], 1e-9),
                      "likelihood-differs", lambda: "log-likelihood %r, fresh %r" % (model.model_llike(), exp[1]))

    for op in case["ops"]:
        s = op["m"]
        m = case["models"][s]
        kind = op["op"]
        if kind != "make" and s not in models:
            continue
        prev = what.setdefault(s, [])
        sim.states.add((kind, prev[-1] if prev else None, m["kind"], m["kin"] == "own", m["intp"] == "own",
                        op.get("via"), len(op.get("theta", [])) == 5 and abs(op["theta"][2]) < 15, op.get("exc")))
        if kind == "make":
            if s in models:
                continue
            models[s] = sim.sut(objs.make, m, m["theta0"])
            last[s] = m["theta0"]
            compare(s, m["theta0"], models[s], "building")
        elif kind == "eval":
            sim.sut(objs.evaluate, m, models[s], op["theta"], op["via"])
            last[s] = op["theta"]
            compare(s, op["theta"], models[s], "evaluation")
        elif kind == "fault":
            tr = seams.LineTracer(sim)
            # count the lines of this very evaluation in a forked copy of the process
            def count():
                tr.run(lambda: sim.attempt(objs.evaluate, m, models[s], op["theta"], op["via"]))
                return tr.n
            target = int(op["u"] * sim.isolated(count))
            _, e = sim.attempt(tr.run, lambda: objs.evaluate(m, models[s], op["theta"], op["via"]), target, op["exc"])
            if e is None and tr.target is None:
                sim.check(op["exc"] not in ("KeyboardInterrupt", "Crash"), "fault-swallowed", lambda: "%s injected at %s did not reach the caller" % (op["exc"], tr.where))
                last[s] = op["theta"]            # handled: then with the right result
                compare(s, op["theta"], models[s], "an evaluation that met and handled %s at %s" % (op["exc"], tr.where))
                prev.append("eval")
                continue
            if e is not None and not core.is_injected(e):
                raise Violation("unexpected-error", "after %s at %s: %r" % (op["exc"], tr.where, e))
            prev.append("%s@%s" % (op["exc"], tr.where))
            continue
        elif kind == "copy":
            if op["how"] == "pickle":
                c2 = sim.sut(lambda: pickle.loads(pickle.dumps(models[s])))
            elif op["how"] == "copy" and hasattr(models[s], "copy"):
                c2 = sim.sut(models[s].copy)
            else:
                c2 = sim.sut(copy.deepcopy, models[s])
            sim.sut(objs.evaluate, m, c2, op["theta"], "update")
            compare(s, op["theta"], c2, "evaluating its copy")
            if not any("@" in x for x in prev[-1:]) and last.get(s) is not None:
                compare(s, last[s], models[s], "evaluating a copy (untouched original)")
            if op["keep"]:
                models[s] = c2
                last[s] = op["theta"]
        elif kind == "bad":
            if m["kind"] in ("slit", "ifu"):
                free = world.free_theta(case["cfg"][m["g"]], last[s] or m["theta0"])
                if op["what"] == "length":
                    free = free[:-1]
                elif op["what"] == "nan":
                    free[0] = np.nan
                else:
                    free = list(free)
                    free[1] = "x"
                sim.attempt(models[s].update_model if m["kind"] == "slit" else models[s].update_3D_int_model, free)
                last[s] = None
        elif kind == "like":
            if m["kind"] == "slit":
                sim.sut(models[s].model_llike)
                sim.sut(models[s].model_redchisq)
                sim.sut(models[s].model_redchisq_no_weight)
                sim.sut(models[s].model_redchisq_weight_ref)
        prev.append(kind)


def nontrivial(case, r):
    ops = [o["op"] for o in case["ops"]]
    shared = len({m["kin"] for m in case["models"]} - {"own"}) < sum(m["kin"] != "own" for m in case["models"])
    return ops.count("eval") >= 2 and (bool(r["fired"]) or "copy" in ops or shared)
