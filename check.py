#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] | check.py PROPERTY --replay HARNESS SEED ITERS"""
import os
import sys

PY = "/opt/veriftools/pyvenv/bin/python"
try:
    import z3  # noqa: F401
except ImportError:
    os.execv(PY, [PY] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from vcg import driver  # noqa: E402


def main():
    if sys.argv[1] == "--setup":
        import shutil
        missing = [t for t in ("clang", "opt", "z3", "cbmc", "gcc") if not (shutil.which(t) or shutil.which(t + "-18"))]
        print("missing tools: %s" % missing if missing else "ready")
        return 1 if missing else 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if "--replay" in sys.argv:
        k = sys.argv.index("--replay")
        return driver.replay(pid, sys.argv[k + 1], sys.argv[k + 2:])
    return driver.main(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
