#!/usr/bin/env python3
"""plant.py NAME: NAME is a python file /verif/seeded/src/NAME.py? -- see plant() below; used interactively to create /verif/seeded/<id>"""
import json, os, shutil, subprocess, sys
WT = "/tmp/wt_plant"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def plant(id, prop, file, edits, needs, breaks, demo, extra=None, py="python3-vt"):
    """edits: [(old, new)] or {file: [(old, new)]}"""
    shutil.rmtree(WT, ignore_errors=True)
    sh("cp -a /repo %s" % WT)
    if not isinstance(edits, dict):
        edits = {file: edits}
    for f, es in edits.items():
        p = os.path.join(WT, f)
        s = open(p).read()
        for old, new in es:
            assert s.count(old) >= 1, "not found: %r" % old
            if isinstance(new, tuple):      # (n-th occurrence, text)
                k, new = new
                parts = s.split(old)
                s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
            else:
                assert s.count(old) == 1, "%d times: %r" % (s.count(old), old)
                s = s.replace(old, new)
        open(p, "w").write(s)
    d = os.path.join("/verif/seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    diff = sh("git -C %s diff" % WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    shutil.copy("/verif/tools/demo_env.py", d + "/demo_env.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 %s "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' % py)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    a = sh("cd /repo && bash %s/demo.sh" % d)
    print("demo clean:", a.returncode, (a.stdout + a.stderr)[-300:] if a.returncode else "")
    # demo on the patched tree: in place, undone straight afterwards
    r = sh("git -C /repo apply %s/patch.diff" % d)
    try:
        b = sh("cd /repo && bash %s/demo.sh" % d)
        print("demo patched:", b.returncode, (b.stdout + b.stderr).strip()[-200:])
        t = sh("bash /opt/vp/build.sh; bash /opt/vp/test.sh /tmp/plant_t.json")
        res = json.load(open("/tmp/plant_t.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        names = base if isinstance(base, list) else base.get("passed") or base.get("stable") or list(base.values())[0]
        miss = [x for x in names if x not in res["passed"]]
        print("tests broken:", miss)
        c = sh("cd /verif && VERIF_TIER=quick VERIF_SEED=1 python3-vt check.py %s" % prop)
        print("check:", c.returncode, "\n".join(c.stdout.strip().split("\n")[-4:]))
    finally:
        sh("git -C /repo checkout -- .")
    shutil.rmtree(WT, ignore_errors=True)
    return a.returncode == 0 and b.returncode != 0 and not miss
