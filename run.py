#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough]   (see DESIGN.md)"""
import glob
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.realpath(sys.executable) != os.path.realpath(VENV) or os.environ.get("VF_ENV") != "1":
    e = dict(os.environ)
    e.update(VF_ENV="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell", MPLBACKEND="Agg",
             PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLCONFIGDIR=e.get("MPLCONFIGDIR", "/tmp"))
    os.execve(VENV, [VENV, os.path.abspath(__file__)] + sys.argv[1:], e)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, os.path.join(HERE, "checks"))
import harness  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    f = glob.glob(os.path.join(HERE, "checks", pid + "_*.py"))
    if len(f) != 1:
        print("no check for", pid)
        sys.exit(5)
    sys.exit(harness.run_check(pid, os.path.basename(f[0])[:-3], tier))
