#!/opt/venv/bin/python
"""Setup: nothing to build, but make sure the solvers and the engine work here"""
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from engine import smt  # noqa: E402,F401
import z3  # noqa: E402

x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
s = z3.Solver()
s.add(x * x > 2, x < 2, x > 0)
assert s.check() == z3.sat
print("solvers ready:", z3.get_version_string())
