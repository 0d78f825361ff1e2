"""pyvc: a small deductive verifier for the Python code of /repo (see DESIGN.md)."""
import z3.z3 as _z3
_z3.Z3_DEBUG = False        # the argument assertions of the z3 Python binding cost a third of the run time
