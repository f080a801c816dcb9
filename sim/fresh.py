"""A newly started interpreter with another hash seed: python sim/fresh.py IN OUT (see common.fresh_run)."""
import os
import pickle
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    with open(sys.argv[1], "rb") as f:
        prop, case, name, args, d = pickle.load(f)
    try:
        import importlib
        from sim import boot
        misfit = boot.load()
        import numpy as np
        from sim.core import Sim
        from sim import seams
        np.random.seed(case["seed"] % (1 << 32))
        s = Sim(case, d)
        os.chdir(d)
        seams.install_all(s, "stub")
        fn = getattr(importlib.import_module("props." + prop.lower()), name)
        out = ("ok", fn(misfit, s, *args))
    except BaseException as e:
        out = ("error", "%s: %s\n%s" % (type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-5:])))
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
