#!/usr/bin/env python
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" or os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["OMP_NUM_THREADS"] = "1"
    os.environ["OPENBLAS_NUM_THREADS"] = "1"
    os.environ.pop("PYTHONPATH", None)
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path.insert(0, HERE)
os.chdir(HERE)
import symx
from symx import runner
import importlib, warnings
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = importlib.import_module("checks." + pid)
    sys.exit(runner.main(pid, mod, tier))
