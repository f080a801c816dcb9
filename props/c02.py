"""C02: the inputs and the random seed alone determine a 2D fit."""
import pickle

from props.common import *
from props import common

ID = "C02"
LEVEL = "exploration"
QUICK, THOROUGH = 260, 2500
RULE = ("a case is one seeded 2D fit run serially without output files, and 2-4 variants of it with other worker counts, "
        "task schedules, worker random numbers, clocks (with jumps) and sets of output files; non-trivial: at least one "
        "variant used simulated workers or other outputs")
STATES = "distinct pool schedules (chunk-to-worker assignment and completion order) and (workers, outputs) combinations"
ASSUMPTIONS = ["simulated workers run chunks one at a time (they share no memory in reality)",
               "worker counts 1-9, as the tests cannot see schedules beyond them",
               "results agree to 1e-9, so reordered floating point sums are not reported"]
SIMPLE = [("cfg.nsub", 1), ("cfg.psf_type", "Gaussian"), ("cfg.nburn", 0), ("cfg.linked", "none")]
OUTS = list(world.OUTPUTS)


def warm(misfit):
    common.warm2d(misfit)


def gen_variant(rng):
    r = rng.random()
    outs = [] if r < .15 else OUTS if r < .3 else [o for o in OUTS if rng.random() < .5]
    return dict(ncpu=rng.choice([1, 2, 2, 3, 4, 5, 7, 9]), cpus=rng.choice([1, 2, 4, 16]), sched=rng.randrange(1 << 20),
                clock=rng.randrange(1 << 20), outputs=outs,
                clock_jumps=[[rng.randrange(1, 30), rng.choice([-3600., 86400., -1e6, 1e7, -.5])]
                             for _ in range(rng.choice([0, 0, 1, 2]))])


def gen(rng, tier, i):
    c = world.gen_cfg(rng)
    if rng.random() < .3:        # may stop early
        c.update(runAll=False, nstep=rng.choice([52, 58, 66, 75]), nEff=rng.choice([1, 2, 3, 4, 5, 6]), minAF=rng.choice([.05, .1, .25]),
                 maxAF=rng.choice([.95, .95, .75]), nwalk=6, nsub=1, linked="none",
                 vary=rng.choice([[True, True, False, False, False], [True, False, True, False, False], [True, False, False, False, False]]))
        n = rng.choice([1, 2])
    else:
        n = rng.choice([2, 3, 3, 4])
    case = dict(cfg=c, ops=[gen_variant(rng) for _ in range(n)], fresh=None)
    case["other_seed"] = rng.random() < .1
    if n > 1 and rng.random() < .05:        # once more in another interpreter, with other string hashes
        case["fresh"] = rng.randrange(1, 1 << 20)
        case["ops"] = case["ops"][:2]
    return case


def fresh(misfit, s, c, v):
    np.random.seed(c["seed"])
    return one(misfit, c, v)(s)


def one(misfit, c, v):
    def go(s):
        w = world.build(misfit, dict(c, ncpu=v["ncpu"]), s.dir, v["outputs"])
        s.sut(w.fit.fit)
        r = res2d(w.fit)
        s.states.add(("cfg", v["ncpu"], tuple(v["outputs"])))
        f = {}
        p = w.mcmc.filename_sampler
        if "sampler" in v["outputs"]:
            with open(w.mcmc.filename_sampler, "rb") as fh:
                d = pickle.load(fh)
            f["sampler"] = dict(chain=rectified(c, d["chain"]), lnprob=d["lnprobability"], af=d["acceptance_fraction"])
        if "h5" in v["outputs"]:
            h = read_h5(w.mcmc.filename_sampler_h5)
            f["h5"] = dict(chain=rectified(c, np.swapaxes(h["chain"], 0, 1)), lnprob=np.swapaxes(h["lnprob"], 0, 1))
        if "bestfit" in v["outputs"]:
            with open(w.mcmc.filename_bestfit_model, "rb") as fh:
                m = pickle.load(fh)
            f["bestfit"] = dict(best=m.mcmc_results.bestfit_theta, err1=m.mcmc_results.err_theta_1sig)
        return r, f
    return go


def run(misfit, case, sim):
    c = case["cfg"]
    base = dict(ncpu=1, outputs=[])
    ref, _ = sub_run(sim, "base", one(misfit, c, base), rng_seed=c["seed"])
    if case.get("fresh"):
        d = os.path.join(sim.dir, "fresh")
        os.makedirs(d)
        got, _ = common.fresh_run(sim, case["fresh"], ID, "fresh", (c, base), d)
        d = differs(got, ref)
        sim.check(d is None, "result-depends-on-interpreter", lambda: "in another interpreter (PYTHONHASHSEED=%d) the fit differs: %s" % (
            case["fresh"], d))
    if case.get("other_seed"):
        got, _ = sub_run(sim, "other", one(misfit, c, base), rng_seed=(c["seed"] + 1) % (1 << 31))
        sim.check(not np.array_equal(got["chain"], ref["chain"]), "seed-ignored", "another random seed gave the same samples")
    for k, v in enumerate(case["ops"]):
        got, files = sub_run(sim, "v%d" % k, one(misfit, c, v), case=dict(cpus=v["cpus"], sched=v["sched"], clock=v["clock"],
                                                                  clock_jumps=v["clock_jumps"]), rng_seed=c["seed"])
        sim.stats["variants"] += 1
        how = "with %d workers, outputs %s" % (v["ncpu"], v["outputs"])
        d = differs(got, ref)
        sim.check(d is None, "result-depends-on-run", lambda: "%s the fit differs from the serial run without outputs: %s" % (how, d))
        for name, r in sorted(files.items()):
            d = differs(r, ref, keys=list(r))
            sim.check(d is None, "file-depends-on-run/" + name, lambda: "%s the %s file differs: %s" % (how, name, d))


def nontrivial(case, r):
    return any(v["ncpu"] > 1 or v["outputs"] for v in case["ops"])
