"""Verifies one contract harness symbolically, and searches/replays it on the real code."""
import hashlib
import itertools
import json
import logging
import os
import random
import sys
import time
import warnings
import traceback
import z3
from . import terms as T
from .terms import EngineHook, Unsupported
from .engine import Engine, PathEnd, Undefined, discharge, build_vc
from .interp import Interp, ensure_legit
from .world import SymWorld, ConWorld, Discard

sys.setrecursionlimit(20000)
logging.disable(logging.CRITICAL)


class Harness(object):
    """a contract: name, function of a world; bounded: sizes fixed or outside the verifier's reach, stated in `bound`"""
    def __init__(self, name, fn, proves="", bound=None, sym=True, cases=1500, size=4, vc_ms=None, contracts=(), max_s=None,
                 assumes=(), soft=False):
        self.soft = soft        # out of solver time: reported as not decided, not as a violation (a refuted obligation still is one)
        self.name, self.fn, self.proves, self.bound, self.sym = name, fn, proves, bound, sym
        self.cases, self.size, self.vc_ms, self.contracts, self.max_s = cases, size, vc_ms, list(contracts), max_s
        self.assumes = list(assumes)


def harness(lst, **kw):
    def deco(fn):
        lst.append(Harness(fn.__name__, fn, proves=(fn.__doc__ or "").strip(), **kw))
        return fn
    return deco


def run_sym(h, tier="quick", max_s=None, vc_ms=None):
    """symbolic verification; returns a JSON-able report"""
    t0 = time.time()
    max_s = max_s or h.max_s or (150 if tier == "quick" else 600)
    vc_ms = vc_ms or h.vc_ms or (8000 if tier == "quick" else 40000)
    eng = Engine(deadline=t0 + max_s)
    EngineHook.cur = eng
    w = SymWorld(eng, tier)
    rep = {"harness": h.name, "status": None, "obligations": [], "paths": 0, "reason": "", "functions": [],
           "solver_s": 0.0, "refuted": []}
    interp = Interp()
    w.interp = interp

    def one():
        w.interp = Interp() if False else interp
        w.begin()
        try:
            h.fn(w)
        finally:
            for (m, a) in list(interp.overrides):
                pass
    reached = 0
    try:
        def collect(v, ex):
            if ex is not None:
                if isinstance(ex, Undefined):
                    raise Unsupported("undefined value outside a call: %s" % ex.what)
                if isinstance(ex, Exception):
                    # the harness could not even look at the result
                    from .interp import mark
                    ensure_legit(ex)
                    ob = eng.oblige("result is well formed", False)
                    ob.inputs, ob.choices = list(w.inputs), dict(w.choices)
                    ob.note = "%s: %s" % (type(ex).__name__, ex)
                    return None
                raise ex
            return None
        res = eng.explore(one, collect=collect)
        reached = len(res)
    except Unsupported as u:
        rep.update(status="unsupported", reason=str(u)[:1500], wall_s=time.time() - t0, paths=eng.npaths,
                   functions=sorted(interp.executed))
        return rep
    except z3.Z3Exception as u:
        rep.update(status="unsupported", reason="z3: " + str(u)[:500], wall_s=time.time() - t0, paths=eng.npaths,
                   functions=sorted(interp.executed))
        return rep
    except Exception as u:
        rep.update(status="unsupported", reason="internal: " + traceback.format_exc()[-1500:], wall_s=time.time() - t0,
                   paths=eng.npaths, functions=sorted(interp.executed))
        return rep
    rep["paths"] = reached
    rep["functions"] = sorted(interp.executed)
    eng.deadline = None
    worst = "proved"
    # one obligation per named check and path; identical VCs are discharged once
    for ob in eng.obligations:
        left = t0 + max_s + 60 - time.time()
        if left <= 0:
            ob.status, ob.note = "unknown", "time budget used up"
        else:
            try:
                discharge(ob, int(min(vc_ms, left * 1000)), use_cvc5=True)
            except z3.Z3Exception as ex:
                ob.status, ob.note = "unknown", "z3: %s" % ex
        rep["solver_s"] += ob.time
        rep["obligations"].append({"name": ob.name, "status": ob.status, "backend": ob.backend, "s": round(ob.time, 3)})
        if ob.status == "refuted":
            worst = "refuted"
            if len(rep["refuted"]) < 3:
                rep["refuted"].append(model_inputs(ob, eng))
        elif ob.status == "unknown" and worst == "proved":
            worst = "unknown"
            rep["reason"] = "%s: %s" % (ob.name, ob.note)
    if not eng.obligations:
        worst, rep["reason"] = "unsupported", "no obligations (vacuous)"
    elif worst == "proved" and not any(vacuity(o) for o in eng.obligations[:6]):
        worst, rep["reason"] = "unsupported", "precondition unsatisfiable (vacuous)"
    rep["status"] = worst
    rep["feas_checks"] = eng.stats["feas_checks"]
    rep["solver_s"] = round(rep["solver_s"] + eng.stats["feas_time"], 3)
    rep["wall_s"] = round(time.time() - t0, 3)
    return rep


def vacuity(ob):
    """is the path condition of this obligation satisfiable (not shown unsatisfiable)?"""
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*build_vc(ob.pc, ob.univs, z3.BoolVal(False), rounds=2))
    return s.check() != z3.unsat


def _val(m, e):
    v = m.eval(e, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    if z3.is_true(v) or z3.is_false(v):
        return bool(z3.is_true(v))
    return 0


def _margin(g, m):
    """a condition stronger than not g: g fails by at least m"""
    k = g.decl().kind() if z3.is_app(g) else None
    m = z3.RealVal(str(m))
    if k == z3.Z3_OP_AND:
        xs = [_margin(c, m) for c in g.children()]
        xs = [x for x in xs if x is not None]
        return z3.Or(*xs) if xs else None
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE) and g.arg(0).sort() == T.R:
        d = g.arg(0) - g.arg(1)
        if k == z3.Z3_OP_EQ:
            return z3.Or(d >= m, d <= -m)
        return d >= m if k == z3.Z3_OP_LE else d <= -m
    return None


def model_inputs(ob, eng):
    """input valuation from the counter-model, preferring small sizes and simple numbers"""
    out = {"obligation": ob.name, "note": ob.note, "choices": ob.choices, "values": {}, "goal": str(z3.simplify(ob.goal))[:600]}
    m = ob.model
    if m is None:
        return out
    dims = [i.sym for i in ob.inputs if i.kind == "dim"]
    reals = [i.sym for i in ob.inputs if i.kind == "real"]
    goal = z3.simplify(ob.goal)
    t0 = time.time()
    for bound, marg in ((2, 1), (3, 1), (2, .01), (4, .01), (8, .01), (2, None), (8, None), (16, None)):
        if time.time() - t0 > 12:
            break
        s = z3.Solver()
        s.set("timeout", 1500)
        s.add(*ob.vc)
        for d in dims:
            s.add(d <= bound)
        for r in reals:
            s.add(r <= 1000, r >= -1000)
        if bound <= 4:
            for i in ob.inputs:
                if i.kind == "arrayr" and 1 <= len(i.shape) <= 2:
                    for idx in itertools.product(*[range(bound if not isinstance(d, int) else d) for d in i.shape]):
                        x = i.sym(*[z3.IntVal(j) for j in idx])
                        s.add(x <= 1000, x >= -1000, z3.Or(x == 0, x > z3.Q(1, 10000), x < -z3.Q(1, 10000)))
        if marg is not None:
            mg = _margin(goal, marg)
            if mg is None:
                continue
            s.add(mg)
        if s.check() == z3.sat:
            m = s.model()
            break
    vals = {}
    for i in ob.inputs:
        if i.kind in ("real", "int", "dim", "bool"):
            vals[i.name] = _val(m, i.sym)
        else:
            sh = []
            for d in i.shape:
                sh.append(d if isinstance(d, int) else _val(m, d.e))
            n = 1
            for d in sh:
                n *= max(0, d)
            if n > 20000:
                return out
            flat = [_val(m, i.sym(*[z3.IntVal(x) for x in idx]) if sh else i.sym()) for idx in
                    itertools.product(*[range(d) for d in sh])]
            import numpy
            vals[i.name] = numpy.array(flat).reshape(sh).tolist() if flat else []
    out["values"] = vals
    return out


# ------------------------------------------------------------------ concrete side
def run_con_once(h, w):
    """(failures, detail)"""
    try:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                h.fn(w)
        except Discard:
            return None
        except Exception as ex:
            if w.nchecks == 0 and not _in_checks(ex):
                raise
            w.failures.append("result is well formed")
            return w.failures, "%s: %s" % (type(ex).__name__, str(ex)[:300])
    finally:
        w.end()
    return w.failures, ""


def _in_checks(ex):
    return True


def run_con(h, seed=1, tier="quick", seconds=20.0, cases=None, vals=None, choices=None):
    """contract checked at run time on the real code; returns report with the first failing input per check name"""
    t0 = time.time()
    rep = {"harness": h.name, "cases": 0, "discarded": 0, "checks": 0, "failures": {}, "error": None}
    n = cases or h.cases * (1 if tier == "quick" else 20)
    i = 0
    distinct = set()
    while i < n and time.time() - t0 < seconds:
        rng = random.Random("%s/%s/%d" % (seed, h.name, i))
        size = [1, 2, h.size, h.size][i % 4] if i < 40 else h.size
        w = ConWorld(rng, tier=tier, size=size)
        i += 1
        r = run_con_once(h, w)
        if r is None:
            rep["discarded"] += 1
            continue
        rep["cases"] += 1
        rep["checks"] += w.nchecks
        if "sample" not in rep:
            rep["sample"] = {"values": w.used, "choices": w.used_choices}
        distinct.add(hashlib.md5(repr((sorted(w.used.items()), sorted(w.used_choices.items()))).encode()).hexdigest())
        for f in set(r[0]):
            if f not in rep["failures"]:
                rep["failures"][f] = {"values": w.used, "choices": w.used_choices, "detail": r[1]}
    rep["distinct"] = len(distinct)
    rep["wall_s"] = round(time.time() - t0, 3)
    return rep


def replay(h, values, choices):
    w = ConWorld(random.Random(0), vals=values, choices=choices)
    r = run_con_once(h, w)
    if r is None:
        return None
    return {"failures": sorted(set(r[0])), "detail": r[1], "values": w.used, "choices": w.used_choices}
