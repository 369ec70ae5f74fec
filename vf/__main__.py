"""``python -m vf C01 [--tier quick|thorough] [--seed N] [--replay FILE]``."""

import argparse
import importlib
import os
import sys

REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"

    import warnings

    warnings.filterwarnings("ignore")
    from vf import core

    if a.selftest:
        return selftest(core)
    prop = a.prop.upper()
    try:
        import curvlinops

        assert os.path.realpath(curvlinops.__file__).startswith(
            os.path.realpath(REPO) + os.sep
        ), curvlinops.__file__
        module = importlib.import_module(f"vf.checks.{prop.lower()}")
    except Exception:
        import traceback

        traceback.print_exc()
        print("HARNESS ERROR: could not import the code under test")
        return 2
    return core.main(module, prop, tier, a.seed, a.replay)


def selftest(core):
    """Set-up: the environment works and every check module can be loaded."""
    import numpy
    import scipy
    import torch

    for i in range(1, 27):
        m = importlib.import_module(f"vf.checks.c{i:02d}")
        assert m.CASES["quick"] > 0 and m.RULE and m.LEVEL and m.MUST is not None
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    print("ok", sys.version.split()[0], torch.__version__, scipy.__version__,
          numpy.__version__)
    return 0


if __name__ == "__main__":
    sys.exit(main())
