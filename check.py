#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough] [--only HARNESS]     decide one property on /repo's current source
   check.py --replay FILE                                          re-run a recorded violation on the real code
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")

TRUSTED = [
    "the verifier in /verif/pyvc: reads the AST of /repo's current .py files on every run (nothing is dropped except doc strings and "
    "comments) and symbolically executes it; its Python semantics (Python 3 division and built-ins) are trusted",
    "z3 5.3 and cvc5 1.1.2 (unsat answers)",
    "numbers are mathematical: ints unbounded, floats are reals; rounding, overflow, nan and inf are not modelled (an operation that "
    "would give nan/inf ends the path as 'undefined' and fails the contract)",
    "the models of the numpy/math functions used by the code (pyvc/npstub.py, pyvc/sarr.py), i.e. assumed contracts on dependencies; "
    "the same contracts are evaluated against real numpy by the run-time search",
    "axioms for log, exp, sqrt and 1/x (ground instances of true facts about the real functions); finite sums: extensionality, "
    "linearity, monotonicity (induction over the length, proved on paper)",
    "loops over a symbolic number of iterations are summarised from one generic iteration (pyvc/loops.py); that summarisation is trusted",
]


def load(pid):
    return importlib.import_module("props." + pid)


# ------------------------------------------------------------------ jobs (one process each)
def _job(pid, hname, kind, opts, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
        from pyvc import runner
        h = {x.name: x for x in load(pid).H}[hname]
        if kind == "sym":
            rep = runner.run_sym(h, tier=opts["tier"], max_s=opts.get("max_s"), vc_ms=opts.get("vc_ms"))
            rep["replayed"] = []
            if rep["status"] == "refuted":
                for m in rep["refuted"]:
                    if not m["values"]:
                        continue
                    r = runner.replay(h, m["values"], m["choices"])
                    if r and r["failures"]:
                        rep["replayed"].append({"check": r["failures"][0], "checks": r["failures"], "values": r["values"],
                                                "choices": r["choices"], "detail": r["detail"], "obligation": m["obligation"]})
        else:
            rep = runner.run_con(h, seed=opts["seed"], tier=opts["tier"], seconds=opts["seconds"], cases=opts.get("cases"))
        conn.send(rep)
    except MemoryError:
        conn.send({"harness": hname, "status": "unsupported", "reason": "out of memory", "error": "out of memory"})
    except BaseException:
        conn.send({"harness": hname, "status": "unsupported", "reason": traceback.format_exc()[-1500:],
                   "error": traceback.format_exc()[-1500:]})
    finally:
        conn.close()


def run_jobs(jobs, limit, workers=None):
    """jobs: [(key, args, seconds)]; returns {key: report}"""
    workers = workers or min(8, os.cpu_count() or 4)
    todo, live, out = list(jobs), {}, {}
    end = time.time() + limit
    while todo or live:
        while todo and len(live) < workers and time.time() < end:
            key, args, secs = todo.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_job, args=args + (b,))
            p.start()
            b.close()
            live[key] = (p, a, time.time() + secs)
        if todo and time.time() >= end:
            for key, args, secs in todo:
                out[key] = {"harness": args[1], "status": "unknown", "reason": "time budget of the check used up",
                            "error": None, "skipped": True}
            todo = []
        for key in list(live):
            p, a, dl = live[key]
            dl = min(dl, end + 30)
            done = False
            try:
                if a.poll(0.01 if len(live) > 1 else 0.05):
                    out[key] = a.recv()
                    done = True
                elif not p.is_alive():
                    if a.poll(0):
                        out[key] = a.recv()
                    else:
                        out[key] = {"harness": key[0], "status": "unsupported", "reason": "verifier process died (%s)" % p.exitcode,
                                    "error": "process died"}
                    done = True
                elif time.time() > dl:
                    p.kill()
                    out[key] = {"harness": key[0], "status": "unknown", "reason": "time limit", "error": None, "skipped": True}
                    done = True
            except EOFError:
                out[key] = {"harness": key[0], "status": "unsupported", "reason": "verifier process died", "error": "process died"}
                done = True
            if done:
                p.join(5)
                if p.is_alive():
                    p.kill()
                a.close()
                del live[key]
    return out


# ------------------------------------------------------------------ main
def main(argv):
    if argv[:1] == ["--replay"]:
        return do_replay(argv[1])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    only = argv[argv.index("--only") + 1] if "--only" in argv else None
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    q = tier == "quick"
    mod = load(pid)
    hs = [h for h in mod.H if only is None or only in h.name]
    total = 600 if q else 3000
    symopts = {"tier": tier}
    jobs = []
    for h in hs:
        if h.sym:
            ms = h.max_s or (150 if q else 600)
            jobs.append(((h.name, "sym"), (pid, h.name, "sym", symopts), ms + 120))
    con_s = 20 if q else 120
    cj = [((h.name, "con"), (pid, h.name, "con", {"tier": tier, "seed": seed, "seconds": con_s}), con_s + 60) for h in hs]
    rep = run_jobs(cj + jobs, total * 0.75)
    # a solver that ran out of time gets one more, longer, attempt
    again = [(h.name, h.max_s or 150) for h in hs if h.sym and not h.soft and rep[(h.name, "sym")].get("status") == "unknown"]
    if again and not any(rep[(h.name, "con")].get("failures") for h in hs):
        left = total - (time.time() - t0) - 60
        if left > 60:
            r2 = run_jobs([((n, "sym"), (pid, n, "sym", {"tier": tier, "vc_ms": 60000, "max_s": min(300, left)}), min(400, left))
                           for n, _ in again], left)
            rep.update(r2)
    # violations
    known = load_known(pid)
    viol, kf = [], []
    undischarged = []
    for h in hs:
        c, s = rep[(h.name, "con")], rep.get((h.name, "sym"))
        fails = dict(c.get("failures") or {})
        if s:
            for r in s.get("replayed") or []:
                fails.setdefault(r["check"], {"values": r["values"], "choices": r["choices"], "detail": r["detail"],
                                              "obligation": r["obligation"]})
        kfh = known.get(h.name)
        for name, f in fails.items():
            if kfh and name in kfh["checks"]:
                kf.append((h, name, kfh))
                continue
            viol.append((h, name, f, None))
        if s and not fails:
            if s["status"] == "refuted" or (s["status"] == "unknown" and not s.get("skipped") and not h.soft):
                bad = [o for o in s.get("obligations", []) if o["status"] in ("refuted", "unknown")]
                undischarged.append((h, s, bad))
            elif c.get("error"):
                undischarged.append((h, s, []))
    # an obligation that does not go through and has no failing input yet: search longer on the real code
    nofail = []
    if undischarged and not viol:
        extra = 60 if q else 300
        jobs2 = []
        for h, s, bad in undischarged:
            for j in range(2):
                jobs2.append(((h.name, "con%d" % j), (pid, h.name, "con", {"tier": tier, "seed": seed * 1000 + j + 1,
                                                                          "seconds": extra, "cases": 20000}), extra + 60))
        left = max(60, total + 180 - (time.time() - t0))
        r3 = run_jobs(jobs2, left)
        for h, s, bad in undischarged:
            found = False
            for j in range(2):
                for name, f in (r3[(h.name, "con%d" % j)].get("failures") or {}).items():
                    kfh = known.get(h.name)
                    if kfh and name in kfh["checks"]:
                        continue
                    if not found:
                        viol.append((h, name, f, None))
                    found = True
            if not found and bad:
                nofail.append((h, s, bad))
    lines = []
    if viol:
        # one violation line per property run is enough; the rest is in the replay file
        h, name, f, _ = viol[0]
        path = write_replay(pid, {"property": pid, "harness": h.name, "check": name, "values": f["values"], "choices": f["choices"],
                                  "detail": f.get("detail"), "obligation": f.get("obligation", name),
                                  "contract": h.proves, "other_failures": [{"harness": a.name, "check": b, "values": c["values"],
                                                                            "choices": c["choices"]} for a, b, c, _ in viol[1:20]]})
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
    elif nofail:
        h, s, bad = nofail[0]
        path = write_replay(pid, {"property": pid, "harness": h.name, "check": bad[0]["name"], "values": None, "choices": None,
                                  "obligation": bad[0]["name"], "contract": h.proves, "verifier": {
                                      "status": s["status"], "reason": s.get("reason"), "obligations": s.get("obligations"),
                                      "countermodels": s.get("refuted")},
                                  "note": "the verifier does not accept this obligation; no failing input was found on the real code",
                                  "other_failures": [{"harness": a.name, "check": c[0]["name"]} for a, b, c in nofail[1:20]]})
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    evidence(pid, tier, seed, hs, rep, time.time() - t0, len(viol) + len(nofail))
    for h in hs:
        s, c = rep.get((h.name, "sym")), rep[(h.name, "con")]
        st = "bounded" if s is None else s["status"]
        print("%-44s %-11s obligations %3d  run-time cases %5d%s" % (
            h.name, st, len(s.get("obligations", [])) if s else 0, c.get("cases", 0),
            "  [%s]" % str(s["reason"]).strip().split("\n")[-1][:110] if s and s.get("status") in ("unsupported", "unknown") else ""))
    seen = set()
    for h, name, k in kf:
        if k["what"] not in seen:
            seen.add(k["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for h, name, f, _ in viol[:20]:
        print("FAILED %s: %s   %s" % (h.name, name, str(f.get("detail"))[:200]))
    for h, s, bad in nofail[:20]:
        print("NOT PROVED %s: %s (%s)" % (h.name, bad[0]["name"], bad[0]["status"]))
    for l in lines:
        print(l)
    print("%s %s in %.1fs" % (pid, "VIOLATED" if lines else "held", time.time() - t0))
    return 1 if lines else 0


def load_known(pid):
    """{harness: {"checks": [...], "what": ...}} of the recorded (not repaired) findings of this property"""
    out = {}
    try:
        d = json.load(open(os.path.join(ROOT, "known_findings.json")))
    except IOError:
        return out
    for k in d.get("findings", []):
        if k["property"] == pid:
            out[k["harness"]] = k
    return out


def write_replay(pid, d):
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", "replay", "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return path


def do_replay(path):
    d = json.load(open(path))
    from pyvc import runner
    h = {x.name: x for x in load(d["property"]).H}[d["harness"]]
    if d["values"] is None:
        print("no failing input; obligation %s of %s, verifier output:" % (d["obligation"], d["harness"]))
        print(json.dumps(d["verifier"], indent=1)[:4000])
        rep = runner.run_sym(h)
        print("now:", rep["status"], rep.get("reason"))
        return 0 if rep["status"] == "proved" else 1
    r = runner.replay(h, d["values"], d["choices"])
    print("contract:", h.proves)
    print("input:", json.dumps({"values": d["values"], "choices": d["choices"]})[:4000])
    print("failed checks on the real code:", r and r["failures"], r and r["detail"])
    return 1 if r and r["failures"] else 0


def evidence(pid, tier, seed, hs, rep, wall, nviol):
    mod = load(pid)
    ob = di = 0
    by, fun, sec, paths, feas = {}, set(), 0.0, 0, 0
    undis, bounded, covered, samples = [], [], [], []
    ev = distinct = checks = 0
    for h in hs:
        s, c = rep.get((h.name, "sym")), rep[(h.name, "con")]
        ev += c.get("cases", 0)
        distinct += c.get("distinct", 0)
        checks += c.get("checks", 0)
        if c.get("sample") and len(samples) < 3:
            samples.append({"harness": h.name, "input": c["sample"]})
        if s is None:
            bounded.append({"harness": h.name, "contract": h.proves, "bound": h.bound or "generated inputs", "cases": c.get("cases", 0)})
            continue
        obs = s.get("obligations", [])
        full = s["status"] not in ("unsupported",) and not s.get("skipped")
        ob += max(len(obs), 1)
        for o in obs:
            if o["status"] == "proved" and full:
                di += 1
                by[o["backend"]] = by.get(o["backend"], 0) + 1
        if not full or any(o["status"] != "proved" for o in obs):
            undis.append({"harness": h.name, "status": s["status"], "reason": str(s.get("reason"))[-300:]})
            bounded.append({"harness": h.name, "contract": h.proves, "bound": "generated inputs (not discharged in this run)",
                            "cases": c.get("cases", 0)})
        fun |= set(s.get("functions", []))
        sec += s.get("solver_s", 0) or 0
        paths += s.get("paths", 0) or 0
        feas += s.get("feas_checks", 0) or 0
        covered.append({"harness": h.name, "contract": h.proves, "status": s["status"], "obligations": len(obs),
                        "paths": s.get("paths"), "wall_s": s.get("wall_s")})
    assumptions = list(TRUSTED) + list(getattr(mod, "ASSUMES", []))
    for h in hs:
        assumptions += ["%s: %s" % (h.name, a) for a in h.assumes]
    if bounded:
        assumptions.append("bounded, not proved: " + "; ".join("%s (%s)" % (b["harness"], b["bound"]) for b in bounded))
    lvl = manifest_level(pid)
    d = {"property": pid, "tier": tier, "seed": seed, "level": lvl, "wall_s": round(wall, 2), "violations": nviol,
         "assumptions": assumptions,
         "coverage": {
             "obligations": ob, "discharged": di, "by_backend": by, "solver_s": round(sec, 2), "paths": paths,
             "feasibility_queries": feas, "functions_under_contract": sorted(fun), "contracts": covered, "undischarged": undis,
             "bounded_standins": bounded, "checker_cmd": "python3-vt /verif/check.py %s" % pid, "trusted_base": list(TRUSTED),
             "evaluations": ev, "distinct_nontrivial": distinct, "runtime_checks": checks,
             "rule": "run-time evaluation of the same contracts on the real code under CPython with generated inputs; distinct = "
                     "different input valuations that satisfy the preconditions", "samples": samples,
             "explanation": "deductive verification of /repo's current source by pyvc: every obligation listed is generated from the AST "
                            "of the functions under contract on this run and discharged by the named back ends; contracts listed as "
                            "bounded are evaluated on generated inputs only"}}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(d, f, indent=1, default=str)


def manifest_level(pid):
    try:
        for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]:
            if c["property"] == pid:
                return c["level"]
    except Exception:
        pass
    return "proof"


if __name__ == "__main__":
    rc = 1
    try:
        rc = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
