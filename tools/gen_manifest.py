#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the table below"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real source (pyvc: symbolic execution to verification conditions, z3/cvc5)"
DEF = ("Every obligation generated from /repo's current source is discharged for all inputs and lengths; reals instead of floats; "
       "numpy models, loop summarisation and the verifier are trusted (see evidence assumptions). The same contracts are also evaluated "
       "on the real code to find and replay failing inputs.")
LEVELS = {}          # id -> (level, note)
exec(open(os.path.join(ROOT, "tools", "levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(os.path.join(ROOT, "props", i + ".py")) and \
            "\nDRAFT = True" not in open(os.path.join(ROOT, "props", i + ".py")).read():
        lvl, note = LEVELS.get(i, ("proof", DEF))
        checks.append({"property": i, "quick_cmd": "python3-vt check.py " + i,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % i,
                       "technique": TECH, "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": "no check has been built yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. Checks read /repo's sources on every run; no hooks in /repo."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
