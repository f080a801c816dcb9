"""Writes /verif/MANIFEST.json from the property modules present."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
NOTE = {
 "C01": "seeded histories of evaluations, rebuilds, copies and line-level interrupts over shared objects; oracle: the same evaluation in a fresh process, plus an independent reference model",
 "C02": "each case re-runs one fit under other worker counts, schedules, clocks and output sets; oracle: the serial run without outputs in its own process",
 "C03": "stages of several fits, models and mocks sharing objects are interleaved by the seeded scheduler; oracle: each alone in its own process, and snapshots of the caller's settings",
 "C04": "every write, sync, rename and close of the explored saves is made to fail, tear, fill the disk or crash (process or machine); the visible file is checked after every single operation",
 "C05": "seeded sequences of reload, analyse, save, evaluate, plot and refit after a fit; oracle: the original results, kept as plain data",
 "C06": "seeded burn-in/step/convergence settings, crashes and append runs; oracle: independent early-stop rule, step accounting over chain, pickle, h5 file and log",
 "C07": "every recorded sample (burn-in included) of seeded fits is recomputed by an independent reference model and prior, under worker schedules and injected non-finite evaluations",
 "C08": "faults at evaluations, chunks, opens, writes, closes, renders and interrupts at seeded lines of a whole fit, then leak checks and a rerun; oracle: the undisturbed fit",
 "C09": "seeded sequences of preparations, fits, copies and interrupts at chosen lines; oracle: one preparation of fresh data in its own process, and the untouched originals",
 "C10": "seeded sequences of 1D fits, reloads and corrections over shared galaxies with crashes and I/O errors; oracle: each fit alone in its own process, percentiles recomputed from the saved realisations",
 "C11": "every reported number of seeded fits and histories of re-analyses is recomputed from the recorded samples by independent code",
 "C12": "seeded sequences of mock generations, fits and interrupts with shared or default profiles; oracle: a fresh process, direct model evaluation and the reference model",
 "C13": "real plotting code (rendering stubbed) at seeded stages with failing output files; oracle: snapshots before/after and the run without plots",
}
NA = {
 "C20": "a pure numerical function of its arguments: no schedule, time, I/O, crash point or history for a simulator to vary; its dependence on history is covered by C01",
 "C21": "pure array functions: nothing for a simulator to schedule or fault; sampling inputs would be property-based testing, a different technique",
 "C22": "pure geometry of the arguments: no nondeterminism, I/O or multi-step state for simulation to explore",
 "C23": "read-only packaged tables: a pure lookup with no schedule, clock, fault or history it could depend on",
 "C24": "pure selections of pixels from arrays; which histories reach them is covered by C09, the selections themselves hold no nondeterminism",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "%s check.py %s" % (PY, i),
                       "thorough_cmd": "%s check.py %s --tier thorough" % (PY, i),
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection (seeded schedules and faults)",
                       "level": "fault_enumeration" if i == "C04" else "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": "its simulation is still being built"})
m = {"version": 1, "setup_cmd": "%s check.py --setup" % PY, "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: the simulator takes over the process pool, clocks, files, HDF5 files, random "
              "state and rendering through the modules' own names. fix: commits are listed in known_findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
