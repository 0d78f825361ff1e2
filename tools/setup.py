"""nothing to build: checks that the interpreter, the solvers and the sources are there"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3, numpy
from pyvc import engine, loader
assert os.path.exists(engine.CVC5), "cvc5"
s = z3.Solver(); x = z3.Int("x"); s.add(x > 1, x < 1); assert s.check() == z3.unsat
assert os.path.isdir("/repo/echidna")
print("ok: z3", z3.get_version_string(), "numpy", numpy.__version__, "cvc5", engine.CVC5)
