"""Set-up check: the interpreter, z3 and the code under test can be loaded."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import core, instrument  # noqa: E402,F401
import z3  # noqa: E402

s = z3.Solver()
x = z3.Int("x")
s.add(x > 2, x < 4)
assert s.check() == z3.sat
print("z3", z3.get_version_string(), "ok")
