"""C04: saved result files survive crashes and failed writes."""
import hashlib
import json
import pickle

from props.common import *
from props import common
from sim import world1d

ID = "C04"
LEVEL = "fault_enumeration"
TARGETS = ["sampler", "bestfit", "mc1d", "whole"]
CLASSES = ["crash", "power", "ENOSPC", "EIO", "short", "torn", "EMFILE", "EACCES", "interrupt", "memory", "twice"]
QUICK, THOROUGH = 44 * 2, 44 * 24
RULE = ("a case is one (file, earlier version or none, fault class, seeded data) combination; within it the fault is placed at "
        "every file operation (or source line) of the save in turn, and after each the visible file, the error, a later "
        "save and a power loss after that are checked; non-trivial: at least one fault took effect")
STATES = "distinct (file, earlier version?, fault class, operation hit, outcome) tuples"
ASSUMPTIONS = ["a write may be torn at any byte, unsynced data may be lost, kept, zero-filled or truncated by a power loss",
               "a prefix (in order) of the directory changes survives a power loss; a rename is atomic",
               "the whole-fit cases place at most 40 faults evenly over all file operations of the fit",
               "closing a file can fail, and a process can die between any two file operations"]
SIMPLE = [("prev", False)]


def warm(misfit):
    common.warm2d(misfit)


def gen(rng, tier, i):
    t = TARGETS[i % 4]
    cl = CLASSES[(i // 4) % 11]
    c = world.gen_cfg(rng, nsub=1, nburn=1, nstep=2, nwalk=10, cont=False, linked="none", psf_type="Gaussian")
    return dict(target=t, cls=cl, prev=(i // 44) % 2 == 0 if rng.random() < .8 else rng.random() < .5, cfg=c,
                one=world1d.gen(rng, num_MC=2, names=["Halpha"]), only=None, cap=24 if tier == "quick" else 400)


class Target(object):
    """One kind of save: how to do it, and what a complete file holds."""

    def __init__(self, misfit, case, sim):
        self.misfit, self.case, self.sim = misfit, case, sim
        c = case["cfg"]
        self.kind = case["target"]
        self.rels = {"sampler": ["fit.pickle"], "bestfit": ["fit.bestfit"], "mc1d": ["mc"],
                     "whole": ["fit.pickle", "fit.bestfit"]}[self.kind]
        if self.kind == "mc1d":
            world1d.cache_tables(sim, misfit)
            self.new1d()
        else:
            outs = {"sampler": ("sampler", "log", "trace_burnin"), "bestfit": ("bestfit",),
                    "whole": ("sampler", "bestfit", "log", "plot", "trace", "trace_burnin")}[self.kind]
            self.w = world.build(misfit, c, sim.dir, outs)
            self.w.fit.setup_model()

    def new1d(self):
        c = self.case["one"]
        self.gal, _ = world1d.galaxy(self.misfit, c)
        self.inst = world1d.instrument(self.misfit, c)

    def prepare(self, seed):
        """Bring the objects to where the save of version `seed` can be made."""
        self.seed = seed
        if self.kind == "bestfit":
            np.random.seed(seed)
            self.w.fit.setup_model()
            self.w.fit.run_mcmc()
            self.w.fit.analyze_results()

    def save(self):
        if self.kind == "bestfit":
            self.w.fit.save_bestfit_model()
            return
        np.random.seed(self.seed)
        if self.kind == "sampler":
            self.w.fit.setup_model()
            self.w.fit.run_mcmc()
        elif self.kind == "whole":
            self.w.fit.fit()
        else:
            f = world1d.make_fit(self.misfit, self.case["one"], self.gal, self.inst)
            f.fit(noPlot=True, err_filename=os.path.join(self.sim.dir, "mc"))

    @staticmethod
    def meaning(rel, data):
        """Digest of a complete file's contents; None if it is not complete."""
        try:
            o = pickle.loads(data)
            if rel == "mc":
                return digest(np.asarray(o, dtype=float))
            if rel.endswith(".pickle"):
                return digest([sorted(o)] + [np.asarray(o[k], dtype=float) for k in
                                             ("chain", "lnprobability", "flatchain", "flatlnprobability")])
            m = o.mcmc_results
            return digest([sorted(o.__dict__), np.asarray(m.bestfit_theta, float), np.asarray(m.err_theta_1sig, float),
                           np.asarray(o.galaxy.spec2D.flux), np.asarray(o.thetaSettings.theta, float)])
        except Exception:
            return None

    def reload(self):
        """What a new process gets through the package (a digest per file)."""
        c = self.case["cfg"]
        if self.kind == "mc1d":
            self.new1d()
            f = world1d.make_fit(self.misfit, self.case["one"], self.gal, self.inst)
            return [digest(np.asarray(f.load_mc_sim_matrix(line="Halpha", err_filename=os.path.join(self.sim.dir, "mc")), float))]
        out = []
        for rel in self.rels:
            if not os.path.exists(os.path.join(self.sim.dir, rel)):
                out.append(None)
                continue
            w = world.build(self.misfit, c, self.sim.dir, ("sampler", "bestfit"))
            if rel.endswith(".pickle"):
                w.fit.reload_sampler()
                o = w.fit.sampler_dict
                out.append(digest([sorted(o)] + [np.asarray(o[k], dtype=float) for k in
                                                 ("chain", "lnprobability", "flatchain", "flatlnprobability")]))
            else:
                w.fit.reload_bestfit_model()
                m = w.fit.mcmc_results
                names = None
                with open(os.path.join(self.sim.dir, rel), "rb") as f:
                    names = sorted(pickle.load(f).__dict__)
                out.append(digest([names, np.asarray(m.bestfit_theta, float), np.asarray(m.err_theta_1sig, float),
                                   np.asarray(w.fit.galaxy.spec2D.flux), np.asarray(w.fit.thetaSettings.theta, float)]))
        return out


def run(misfit, case, sim):
    seams.install_all(sim)
    fs = sim.fs
    t = Target(misfit, case, sim)
    cls = case["cls"]
    c = case["cfg"]
    # the earlier version
    files = {}
    old = {}
    if case["prev"]:
        t.prepare(11)
        sim.sut(t.save)
        files = {r: fs.content(r) for r in t.rels}
        old = {r: t.meaning(r, files[r]) for r in t.rels}
        for r in t.rels:
            sim.check(old[r] is not None, "incomplete-save/" + r, "a save that returned left a file that cannot be loaded")
    t.prepare(22)
    fs.reset(files)
    # the new version, undisturbed, counting where faults can go
    n0 = sim.counts["fs"]
    tracer = seams.LineTracer(sim, files=("misfit/fit/fit_io.py",))
    sim.sut(tracer.run, t.save)
    npts = sim.counts["fs"] - n0
    nlines = tracer.n
    new = {r: t.meaning(r, fs.content(r)) if os.path.exists(fs.path(r)) else None for r in t.rels}
    for r in t.rels:
        sim.check(new[r] is not None, "incomplete-save/" + r, "a save that returned left no complete file")
    if case["prev"]:
        sim.check(new != old, "harness-versions", "the two versions are the same")
    memo = {}

    def visible(r):
        p = fs.path(r)
        if not os.path.lexists(p):
            return "absent"
        if not os.path.isfile(p):
            return "bad"
        data = fs.content(r)
        h = hashlib.sha256(data).digest()
        if (r, h) not in memo:
            m = t.meaning(r, data)
            memo[(r, h)] = "bad" if m is None else "new" if m == new[r] else "old" if m == old.get(r) else "bad"
        return memo[(r, h)]

    def look(when):
        for r in t.rels:
            v = visible(r)
            ok = v in ("old", "new") or (v == "absent" and not case["prev"])
            sim.check(ok, "file-%s/%s" % ("lost" if v == "absent" else "damaged", r), lambda: (
                "%s: the file %s is %s (%d bytes)" % (when, r, "gone" if v == "absent" else "neither the complete old nor the "
                "complete new version", len(fs.content(r)) if v != "absent" else 0)))

    lines = cls in ("interrupt", "memory")
    total = nlines if lines else npts
    ks = list(range(total))
    if len(ks) > case["cap"]:
        ks = sorted({int(x * len(ks) / case["cap"]) for x in range(case["cap"])} | {total - 1, total - 2, total - 3} & set(ks)
                    | set(range(max(0, total - 8), total)))
    if case["only"] is not None:
        ks = [k for k in ks if k == case["only"]]
    cut = sub_rng(sim.seed, "cut")
    for k in ks:
        t.prepare(22) if t.kind == "bestfit" and lines else None
        fs.reset(files)
        fs.rng = sub_rng(sim.seed, "fs", k)
        sim.event("fault-at", k)
        fs.watch = lambda w: look("%s, fault %s at operation %d, %s" % (t.kind, cls, k, w))
        nf = len(sim.fired)
        if cls in ("crash", "power"):
            sim.arm("fs", k, exc="Crash")
        elif cls == "ENOSPC":
            sim.arm("fs", k, act="full")
        elif cls == "short":
            sim.arm("fs", k, short=True, act="short")
        elif cls == "torn":
            sim.arm("fs", k, short=True, err="EIO")
        elif cls == "twice":
            sim.arm("fs", k, err="EIO")
            sim.arm("fs", k + 1 + cut.randrange(4), err=cut.choice(["EIO", "ENOSPC"]))
        elif not lines:
            sim.arm("fs", k, err=cls)
        if lines:
            _, e = sim.attempt(seams.LineTracer(sim, files=("misfit/fit/fit_io.py",)).run, t.save, k,
                               "KeyboardInterrupt" if cls == "interrupt" else "MemoryError")
        else:
            _, e = sim.attempt(t.save)
        fs.watch = None
        failed = e is not None
        if failed and not core.is_injected(e):
            raise Violation("unexpected-error", "%s at %d: %s: %s" % (cls, k, type(e).__name__, e))
        e = None
        collect_now()
        sim.disarm()
        fs.full = False
        hit = sim.fired[nf]["at"] if len(sim.fired) > nf else None
        when = "%s after %s at %d (%s)" % (t.kind, cls, k, hit)
        if cls == "power":
            fs.power_loss(sub_rng(sim.seed, "power", k))
        look(when)
        out = [visible(r) for r in t.rels]
        sim.states.add((t.kind, case["prev"], cls, str(hit and hit[0]), tuple(out), failed))
        if not failed:
            sim.check(all(v == "new" for v in out), "silent-failure", lambda: (
                "%s: the save returned normally, but the file is %s" % (when, out)))
        # a new process can load what is there
        if k % 6 == 0 and (t.kind == "mc1d" or any(v != "absent" for v in out)):
            if out[0] != "absent" or t.kind == "whole":
                got = sim.isolated(lambda: (sim.restore(), world1d.cache_tables(sim, misfit), t.reload())[2])
                want = [old.get(r) if v == "old" else new[r] if v == "new" else None for r, v in zip(t.rels, out)]
                sim.check(got == want, "reload-differs", lambda: "%s: a new process loads something else (%s)" % (when, out))
        # a later save works, is complete, and survives losing power
        sim.sut(t.save)
        out = [visible(r) for r in t.rels]
        sim.check(all(v == "new" for v in out), "later-save", lambda: "%s: a later save leaves %s" % (when, out))
        for j in range(3):
            keep = (dict(fs.base), list(fs.journal), fs.forced, dict(fs.inodes), fs.snapshot(),
                    {id(i): (i, i.durable, i.dirty) for i in list(fs.inodes.values()) + list(fs.base.values())})
            fs.power_loss(sub_rng(sim.seed, "power2", k, j))
            out = [visible(r) for r in t.rels]
            sim.check(all(v == "new" for v in out), "not-durable", lambda: (
                "%s: a later save returned normally, then power was lost: the file is %s" % (when, out)))
            fs.reset(keep[4])
            fs.base, fs.journal, fs.forced, fs.inodes = keep[:4]
            for i, d, dirty in keep[5].values():
                i.durable, i.dirty = d, dirty
        sim.stats["placements"] += 1


def collect_now():
    core.collect()


def nontrivial(case, r):
    return bool(r["fired"])


def shrinks(case):
    if case["only"] is None:
        for k in range(60):
            c = json.loads(json.dumps(case))
            c["only"], c["cap"] = k, 400
            yield c
