#!/opt/venv/bin/python
"""Nothing to build: check that solver, target and harness load."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from symx import target  # noqa: E402

target.load()
import z3  # noqa: E402

x = z3.Real("x")
s = z3.Solver()
s.add(x * x < 0)
assert s.check() == z3.unsat
print("ready: z3", z3.get_version_string())
