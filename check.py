#!/opt/venv/bin/python
"""
check.py PROPERTY [--tier quick|thorough] [--case REGEX] [--jobs N] [-v]
check.py --replay FILE
"""
import argparse
import os
import sys

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

from engine import runner  # noqa: E402

ap = argparse.ArgumentParser()
ap.add_argument("property", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--case")
ap.add_argument("--jobs", type=int)
ap.add_argument("--replay")
ap.add_argument("--stress", type=int)
ap.add_argument("-v", action="store_true")
a = ap.parse_args()
os.environ["VERIF_TIER"] = a.tier
if a.replay:
    sys.exit(runner.replay(a.replay))
if a.stress:
    sys.exit(runner.stress(a.property, a.tier, a.stress, a.case))
sys.exit(runner.main(a.property, a.tier, a.case, a.jobs, a.v))
