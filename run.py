"""run.py PROPERTY [--tier quick|thorough] [--check NAME] [--seed N] | run.py --replay FILE"""
import argparse
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import core  # noqa: E402

if __name__ == "__main__":
    core.bootstrap()
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--check", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import hypothesis
        import lightcurvelynx

        print("hypothesis", hypothesis.__version__, "library", lightcurvelynx.__file__)
        rc = 0
    elif a.replay:
        rc = core.replay(a.replay)
    else:
        rc = core.run_property(a.property, a.tier, a.seed, a.check, a.scale)
    import atexit

    atexit._run_exitfuncs()
    sys.stdout.flush()
    os._exit(rc)
