#!/usr/bin/env python3
"""check.py ID [--replay FILE] [--runs N] [--tier quick|thorough] [--seed S] [--selftest]

Decides one property by deterministic simulation: seeded cases, each run in its own forked process.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself failed."""
import argparse
import json
import os
import sys
import time

if os.environ.get("PYTHONHASHSEED") != "0" or sys.flags.optimize:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ.pop("PYTHONOPTIMIZE", None)
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import boot, engine  # noqa: E402


def describe(res):
    return "%s: %s" % (res["sig"], res["msg"].strip())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="check that the simulator and the package load")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--hashes", help="write every run's event hash to this file (determinism self-test)")
    ap.add_argument("--no-min", action="store_true")
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--one", type=int, help="run one case index in this process, with output")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    if a.setup:
        misfit = boot.load()
        import glob
        for f in sorted(glob.glob(os.path.join(HERE, "props", "c[0-9]*.py"))):
            engine.prop_module(os.path.basename(f)[:-3])
        print("ready: misfit from %s" % os.path.dirname(misfit.__file__))
        return 0
    mod = engine.prop_module(a.id)
    misfit = engine.warm(mod)
    t_warm = time.time() - t0

    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        res = engine.run_forked(mod, rep["case"])
        if "harness" in res:
            print("harness error:\n" + res["harness"])
            return 2
        if res["ok"]:
            print("replay: the run holds the property (recorded: %s)" % rep["sig"])
            return 0
        exact = res["hash"] == rep["hash"] and res["sig"] == rep["sig"]
        print("replay: %s\nexecution hash %s, recorded %s: %s" % (
            describe(res), res["hash"], rep["hash"], "reproduced exactly" if exact else "DIFFERENT execution"))
        print("VIOLATION property=%s replay=%s" % (mod.ID, os.path.abspath(a.replay)))
        return 1

    if a.one is not None:
        import tempfile
        import shutil
        d = tempfile.mkdtemp(prefix="misfit-sim-")
        case = engine.make_case(mod, a.seed, a.one, tier)
        print(json.dumps(case))
        try:
            res = engine.run_here(mod, case, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(res, indent=1, default=str))
        return 0

    runs = a.runs or (mod.THOROUGH if tier == "thorough" else mod.QUICK)
    cap = 3000. if tier == "thorough" else 420.
    cases = [engine.make_case(mod, a.seed, a.first + i, tier) for i in range(runs)]
    known = [k for k in engine.known_findings() if k["property"] == mod.ID]
    results, harness, bad, known_hit, shaky = {}, [], [], {}, []

    def search(todo):
        if not todo:
            return
        for j, res in engine.run_many(mod, [cases[i] for i in todo], a.workers, max(30., cap - (time.time() - t0)), 10 ** 9 if a.keep_going else 3):
            i = todo[j]
            results[i] = res
            if "harness" in res:
                harness.append((i, res))
            elif not res["ok"]:
                k = next((k for k in known if k["sig"] == res["sig"] and
                          all(x in res["msg"] for x in k.get("contains", []))), None)
                if k is not None:
                    known_hit.setdefault(k["id"], i)
                else:
                    bad.append((i, res))

    def again(case):
        """A failing repetition of a case, or None: what no repetition shows is not the case's doing."""
        for _ in range(3):
            r = engine.run_forked(mod, case)
            if "harness" not in r and not r["ok"]:
                return r
        return None

    search(list(range(runs)))
    for _ in range(3):
        # at most a few failures of each kind have to be confirmed
        seen = {}
        for i, res in sorted(bad, key=lambda x: x[0]):
            if seen.get(res["sig"], 0) >= 3 or any(v is True for v in seen.values()):
                break
            if again(cases[i]) is not None:
                seen[res["sig"]] = True
            else:
                seen[res["sig"]] = seen.get(res["sig"], 0) + 1
                shaky.append((i, res))
        bad = [x for x in bad if x not in shaky]
        if bad or not shaky:
            break
        search([i for i in range(runs) if i not in results])
        if not bad:
            break
    for i, res in shaky:
        print("not reproduced by three repetitions, not reported: case %d: %s" % (i, describe(res)[:300]))
    t_run = time.time() - t0 - t_warm
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
    code = 0
    if a.hashes:
        with open(a.hashes, "w") as f:
            json.dump({str(i): results[i]["hash"] for i in sorted(results)}, f)
    for i, res in harness[:3]:
        print("harness error in case %d:\n%s" % (i, res["harness"]))
    reported = []
    if bad:
        bad.sort(key=lambda x: x[0])
        sigs = {}
        for i, res in bad:
            sigs.setdefault(res["sig"], (i, res))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        for sig, (i, res) in list(sigs.items())[:3]:
            case, tried, kept = cases[i], 0, 0
            if not a.no_min:
                case, tried, kept = engine.minimise(mod, case, sig, 60. if not reported else 20.)
            final = again(case)
            if final is None and case is not cases[i]:
                case, kept = cases[i], 0
                final = again(case)
            if final is None:
                final = res
            repeat = engine.run_forked(mod, case)
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (mod.ID, sig.replace("/", "_")[:40], i))
            with open(path, "w") as f:
                json.dump({"property": mod.ID, "sig": sig, "msg": final.get("msg"), "hash": final["hash"],
                           "seed": case["seed"], "case": case, "original_case": cases[i],
                           "faults_fired": final["fired"], "last_events": final["tail"],
                           "minimisation": {"tried": tried, "kept": kept},
                           "repeatable": final["hash"] == repeat["hash"]}, f, indent=1, default=str)
            print("case %d, seed %d: %s" % (i, case["seed"], describe(res)))
            print("VIOLATION property=%s replay=%s" % (mod.ID, path))
            reported.append(path)
        code = 1
    if harness and not bad:
        code = 2
    # ---- evidence
    n = len(results)
    nontrivial, states, kinds, fired, agg = set(), set(), {}, 0, {}
    simtime = 0.
    for i, r in results.items():
        if getattr(mod, "nontrivial", lambda c, r: True)(cases[i], r):
            nontrivial.add(r["hash"])
        states.update(r["states"])
        simtime += r["simtime"]
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
        for f in r["fired"]:
            key = ":".join(str(f.get(x)) for x in ("kind", "exc", "act", "err") if f.get(x))
            kinds[key] = kinds.get(key, 0) + 1
            fired += 1
    samples = [{"index": i, "case": {k: v for k, v in cases[i].items()}, "events": results[i]["events"],
                "hash": results[i]["hash"], "faults_fired": results[i]["fired"][:6]} for i in sorted(results)[:3]]
    ev = {"property": mod.ID, "tier": tier, "seed": int(a.seed) if a.seed.lstrip("-").isdigit() else 0,
          "level": mod.LEVEL,
          "coverage": {
              "evaluations": n, "distinct_nontrivial": len(nontrivial), "rule": mod.RULE, "samples": samples,
              "planned_runs": runs, "runs_per_hour": round(n / max(t_run, 1e-6) * 3600.),
              "seeds_per_hour": round(n / max(t_run, 1e-6) * 3600.),
              "simulated_seconds": round(simtime, 1),
              "faults_injected": kinds, "faults_injected_total": fired,
              "distinct_executions": len({r["hash"] for r in results.values()}),
              "distinct_states": len(states), "state_measure": mod.STATES,
              "events": sum(r["events"] for r in results.values()),
              "counters": {k: v for k, v in sorted(agg.items()) if not k.startswith("fault:")},
              "real_components": mod.REAL_COMPONENTS, "stubbed_components": mod.STUBS,
              "known_findings_seen": known_hit, "not_reproduced": [i for i, _ in shaky], "harness_errors": len(harness)},
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d/%d runs (%d distinct non-trivial), %d faults, %d distinct states, %.0f simulated s, "
          "%.1f s wall, %d violations" % (mod.ID, tier, n, runs, len(nontrivial), fired, len(states), simtime,
                                          time.time() - t0, len(bad)))
    return code


if __name__ == "__main__":
    sys.exit(main())
