"""Path exploration (by re-execution with a decision trail), universally quantified facts, obligations and their discharge."""
import itertools
import os
import subprocess
import tempfile
import time
import z3
from . import terms as T
from .terms import EngineHook, Unsupported, Term, INV, LOG, EXP, SQRT, POW, FACT, PI, E_


class PathEnd(BaseException):
    """abandon this path (infeasible or assumed away)"""


class Undefined(BaseException):
    """a numpy operation produced nan/inf on this path"""
    def __init__(self, what):
        BaseException.__init__(self, what)
        self.what = what


class Univ(object):
    """forall vars. body (z3 Bool)"""
    __slots__ = ("vars", "body", "trig", "whole")

    def __init__(self, vars_, body, whole=False):
        self.vars, self.body = list(vars_), body
        self.trig = {}
        names = {v.decl().name(): i for i, v in enumerate(self.vars)}
        pats = {i: [] for i in range(len(self.vars))}
        for s in T.subterms(body):
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.num_args() > 0:
                for p, a in enumerate(s.children()):
                    if a.sort() != T.I:
                        continue
                    for nm, i in names.items():
                        if T.mentions(a, {nm}):
                            off = z3.simplify(a - self.vars[i])
                            if not T.mentions(off, set(names)):
                                pats[i].append((s.decl().name(), p, off))
        self.trig = pats
        # applications that determine all the variables at once: (function name, [(position, offset) per variable])
        self.whole = []
        if whole:
            for s in T.subterms(body):
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.num_args() > 0:
                    m = []
                    for v in self.vars:
                        at = [p for p, a in enumerate(s.children()) if a.eq(v)]
                        if not at:
                            break
                        m.append(at[0])
                    else:
                        if (s.decl().name(), m) not in self.whole:
                            self.whole.append((s.decl().name(), m))


class Obligation(object):
    def __init__(self, name, goal, pc, univs, trail):
        self.name, self.goal, self.pc, self.univs, self.trail = name, goal, pc, univs, trail
        self.status = None      # proved / refuted / unknown
        self.backend = None
        self.time = 0.0
        self.model = None
        self.note = ""


DROP = True     # leave branches that follow from what is known out of the conditions of a path


class Engine(object):
    def __init__(self, vc_timeout_ms=10000, feas_timeout_ms=400, max_paths=4000, deadline=None):
        self.pc = []
        self.pcids = {}
        self.implied = set()        # positions in pc
        self.univs = []
        self.trail, self.pos = [], 0
        self.pending = []
        self.depth = 0
        self.vc_timeout, self.feas_timeout = vc_timeout_ms, feas_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.obligations = []
        self.npaths = 0
        self.assumed = set()
        self.solver = z3.Solver()
        self.solver.set("timeout", feas_timeout_ms)
        self.ax_seen = [set()]
        self.stats = {"feas_checks": 0, "feas_time": 0.0}
        self.extra_terms = []

    # ---- path conditions
    def assume(self, c):
        c = T.rb(c)
        if z3.is_true(c):
            return
        if z3.is_false(z3.simplify(c)):
            raise PathEnd()
        self._push(c)

    def _push(self, c):
        self.pcids[c.get_id()] = len(self.pc)
        self.pc.append(c)
        self._add(c)

    def _in_pc(self, e):
        j = self.pcids.get(e.get_id())
        return j is not None and j < len(self.pc) and self.pc[j].get_id() == e.get_id()

    def assume_univ(self, n_or_bounds, fn, whole=False):
        """forall 0<=i<n (each i): fn(i...)"""
        bounds = n_or_bounds if isinstance(n_or_bounds, (list, tuple)) else [n_or_bounds]
        vs = [z3.Int(T.fresh_name("u")) for _ in bounds]
        body = T.rb(fn(*[Term(v, "i") for v in vs]))
        guard = [z3.And(v >= 0, v < T.ri(b)) for v, b in zip(vs, bounds) if b is not None]
        u = Univ(vs, z3.simplify(z3.Implies(z3.And(*guard), body)) if guard else body, whole)
        if not z3.is_true(u.body):
            self.univs.append(u)
        return u

    def _add(self, c):
        self.solver.add(c)
        for a in function_axioms([c], self.ax_seen[-1]):
            self.solver.add(a)

    def feasible(self, e):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this harness used up")
        t = time.time()
        self.stats["feas_checks"] += 1
        self.solver.push()
        seen = set(self.ax_seen[-1])
        self.solver.add(e)
        for a in function_axioms([e], seen):
            self.solver.add(a)
        if self.univs:
            for a in univ_instances(self.univs, self.pc + [e], limit=60):
                self.solver.add(a)
        r = self.solver.check()
        self.solver.pop()
        self.stats["feas_time"] += time.time() - t
        return r != z3.unsat

    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self._in_pc(e):
            return True
        n = e.arg(0) if z3.is_not(e) else z3.Not(e)
        if self._in_pc(n):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            return self._take(d, e, n)
        a = self.feasible(e)
        b = self.feasible(n)
        if a and b:
            self.pending.append(self.trail + [False])
            d = True
        elif a or b:
            d = "implied" if a else "excluded"
        else:
            raise PathEnd()
        self.trail.append(d)
        self.pos += 1
        return self._take(d, e, n)

    def _take(self, d, e, n):
        """the branch e or n; one that follows from what is known is no condition of the path"""
        v = d is True or d == "implied"
        c = e if v else n
        if d in ("implied", "excluded"):
            self.implied.add(len(self.pc))
        self._push(c)
        return v

    def _conditions(self, start):
        return [c for i, c in enumerate(self.pc[start:], start) if i not in self.implied]

    def decide(self, e):
        """True / False when the path condition implies e / not e, else None (recorded, so that re-execution agrees)"""
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self._in_pc(e):
            return True
        if self._in_pc(z3.Not(e)):
            return False
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            return None if d == "?" else d
        a = self.feasible(z3.Not(e))
        d = True if not a else False if not self.feasible(e) else None
        self.trail.append("?" if d is None else d)
        self.pos += 1
        return d

    def choose(self, n):
        """unconstrained choice 0..n-1, all explored"""
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            self.pos += 1
            return d
        for j in range(n - 1, 0, -1):
            self.pending.append(self.trail + [j])
        self.trail.append(0)
        self.pos += 1
        return 0

    def explore(self, fn, setup=None, collect=None):
        """run fn on every path; returns [(pc added, univs added, result of collect(value, exc))]"""
        sv = (self.trail, self.pos, self.pending, len(self.pc), len(self.univs))
        results = []
        self.pending = [[]]
        self.depth += 1
        try:
            while self.pending:
                pre = self.pending.pop()
                self.trail, self.pos = list(pre), 0
                self._cut(sv)
                self.npaths += 1
                if self.npaths > self.max_paths:
                    raise Unsupported("more than %d paths" % self.max_paths)
                self.solver.push()
                self.ax_seen.append(set(self.ax_seen[-1]))
                try:
                    if setup:
                        setup()
                    try:
                        v = (fn(), None)
                    except PathEnd:
                        continue
                    except Unsupported:
                        raise
                    except BaseException as ex:     # classified by the caller
                        v = (None, ex)
                    r = collect(*v) if collect else v
                    results.append((self._conditions(sv[3]) if DROP else self.pc[sv[3]:], self.univs[sv[4]:], r))
                finally:
                    self.solver.pop()
                    self.ax_seen.pop()
        finally:
            self.trail, self.pos, self.pending = sv[:3]
            self._cut(sv)
            self.depth -= 1
        return results

    def _cut(self, sv):
        del self.pc[sv[3]:]
        del self.univs[sv[4]:]
        self.implied = {i for i in self.implied if i < sv[3]}

    def under_binder(self, var, n, fn):
        """value of fn() for a generic 0<=var<n, merged over its paths"""
        rng = z3.And(var >= 0, var < T.ri(n)) if n is not None else None

        def setup():
            if rng is not None:
                self.assume(rng)
        res = self.explore(fn, setup=setup)
        return self.merge(res, 1 if rng is not None else 0)

    def merge(self, res, skip=0):
        vals = []
        for pc, un, (v, ex) in res:
            if ex is not None:
                raise Unsupported("exception under a binder: %r" % (ex,))
            if un:
                raise Unsupported("quantified facts under a binder")
            vals.append((pc[skip:], v))
        if not vals:
            raise PathEnd()
        out = vals[-1][1]
        for pc, v in reversed(vals[:-1]):
            c = T.and_(*[Term(x, "b") for x in pc])
            out = T.ite(c, v, out)
        return out

    def skolem(self, base="sk", n=None):
        v = z3.Int(T.fresh_name(base))
        if n is not None:
            self.assume(z3.And(v >= 0, v < T.ri(n)))
        return Term(v, "i")

    # ---- obligations
    def oblige(self, name, cond):
        cond = T.tb(cond)
        ob = Obligation(name, T.rb(cond), list(self.pc), list(self.univs), list(self.trail))
        if cond is True:
            ob.status, ob.backend = "proved", "evaluation"
        self.obligations.append(ob)
        return ob


# ------------------------------------------------------------------ axioms
_hasfn = {}


def has_function(e):
    """does e contain a term with axioms?"""
    i = e.get_id()
    if i in _hasfn:
        return _hasfn[i][1]
    r = False
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            d = e.decl()
            r = any(d.eq(f) for f in (INV, LOG, EXP, SQRT, POW, FACT)) or d.name() in ("PI", "EULER")
        r = r or any(has_function(c) for c in e.children())
    _hasfn[i] = (e, r)
    return r


def function_axioms(exprs, seen):
    """ground instances of the axioms of INV, LOG, EXP, SQRT, PI ... for the terms in exprs; closed under new terms"""
    out = []
    work = [e for e in exprs if has_function(e)]
    sub_seen = set()
    i = 0
    while work and i < 400:
        e = work.pop()
        for s in T.subterms(e, sub_seen, []):
            if not z3.is_app(s) or s.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            key = s.get_id()
            if key in seen:
                continue
            d = s.decl()
            new = None
            if d.eq(INV):
                x = s.arg(0)
                new = [z3.Implies(x == 0, s == 0), z3.Implies(x != 0, x * s == 1),
                       z3.Implies(x > 0, s > 0), z3.Implies(x < 0, s < 0)]
            elif d.eq(LOG):
                x = s.arg(0)
                iv = T.inv_e(x)
                new = [z3.Implies(x > 0, z3.And(s <= x - 1, s >= 1 - iv)), z3.Implies(x == 1, s == 0),
                       z3.Implies(z3.And(x > 0, x != 1), z3.And(s < x - 1, s > 1 - iv)),
                       z3.Implies(x > 0, EXP(s) == x)]
                p = T.poly(x)
                if len(p) == 1:
                    (m, c), = p.items()
                    if c > 0 and m and (c != 1 or len(m) > 1 or m[0][1] != 1):
                        tot = LOG(T.rv(c)) if c != 1 else T.rv(T.Fraction(0))
                        g = []
                        for a, ex in m:
                            at = T._atoms[a]
                            at = z3.ToReal(at) if at.sort() == T.I else at
                            g.append(at > 0)
                            tot = tot + z3.RealVal(ex) * LOG(at)
                        new.append(z3.Implies(z3.And(*g), s == tot))
            elif d.eq(EXP):
                x = s.arg(0)
                new = [s > 0, s >= 1 + x, z3.Implies(x == 0, s == 1), z3.Implies(x < 0, s < 1), z3.Implies(x > 0, s > 1)]
                if not (z3.is_app(x) and x.decl().eq(LOG)):
                    new.append(LOG(s) == x)
            elif d.eq(SQRT):
                x = s.arg(0)
                new = [z3.Implies(x >= 0, z3.And(s >= 0, s * s == x)), z3.Implies(x > 0, s > 0),
                       z3.Implies(x == 0, s == 0)]
            elif d.eq(POW):
                x, y = s.children()
                new = [z3.Implies(x > 0, s > 0), z3.Implies(y == 0, s == 1), z3.Implies(y == 1, s == x),
                       z3.Implies(x == 1, s == 1), z3.Implies(x > 0, LOG(s) == y * LOG(x))]
            elif d.eq(FACT):
                x = s.arg(0)
                new = [s > 0]
            elif d.name() == "PI":
                new = [s > z3.Q(314159265, 100000000), s < z3.Q(314159266, 100000000)]
            elif d.name() == "EULER":
                new = [s > z3.Q(271828182, 100000000), s < z3.Q(271828183, 100000000), LOG(s) == 1]
            if new:
                seen.add(key)
                _keep.append(s)
                out.extend(new)
                i += 1
                if i < 120:
                    work.extend(new)
    return out


_keep = []


def _ground_index_terms(exprs):
    """for every uninterpreted function name and argument position, the ground Int terms found there; and Int constants"""
    pos, consts, apps = {}, {}, {}
    seen = set()
    for e in exprs:
        for s in T.subterms(e, seen, []):
            if not z3.is_app(s):
                continue
            if s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if s.num_args() == 0:
                    if s.sort() == T.I:
                        consts[s.get_id()] = s
                else:
                    apps.setdefault(s.decl().name(), {})[s.get_id()] = s.children()
                    _keep.append(s)
                    for p, a in enumerate(s.children()):
                        if a.sort() == T.I:
                            pos.setdefault((s.decl().name(), p), {})[a.get_id()] = a
    return pos, consts, apps


def univ_instances(univs, exprs, limit=400, done=None, whole_only=False):
    done = set() if done is None else done
    if whole_only and not any(u.whole for u in univs):
        return []
    pos, consts, apps = _ground_index_terms(exprs)
    out = []
    for u in univs:
        if u.whole:
            n = 0
            for fname, at in u.whole:
                for args in apps.get(fname, {}).values():
                    combo = [args[p] for p in at]
                    key = (id(u),) + tuple(x.get_id() for x in combo)
                    if key in done or n >= limit:
                        continue
                    n += 1
                    done.add(key)
                    _keep.extend(combo)
                    out.append(z3.simplify(z3.substitute(u.body, *zip(u.vars, combo))))
            continue
        if whole_only:
            continue
        cands = []
        for i in range(len(u.vars)):
            c = {}
            for fname, p, off in u.trig[i]:
                for a in pos.get((fname, p), {}).values():
                    t = z3.simplify(a - off)
                    c[t.get_id()] = t
                    _keep.append(t)
            for s in consts.values():
                nm = s.decl().name()
                if nm.startswith(("sk", "k0", "last")):
                    c[s.get_id()] = s
            if not u.trig[i]:
                for s in consts.values():
                    c[s.get_id()] = s
            cands.append(list(c.values())[:40])
        for combo in itertools.islice(itertools.product(*cands), limit):
            key = (id(u),) + tuple(x.get_id() for x in combo)
            if key in done:
                continue
            done.add(key)
            out.append(z3.simplify(z3.substitute(u.body, *zip(u.vars, combo))))
        if len(out) > limit * 4:
            break
    return [o for o in out if not z3.is_true(o)]


def sum_lemmas(exprs, st):
    """instances of the sum lemmas for SUM applications in exprs. st: state dict"""
    out = []
    seen = set()
    apps = {}
    for e in exprs:
        for s in T.subterms(e, seen, []):
            if T.is_sum(s):
                apps[s.get_id()] = s
    apps = list(apps.values())
    for s in apps:
        key = ("one", s.get_id())
        if key in st["done"]:
            continue
        st["done"].add(key)
        _keep.append(s)
        bounds, vs, body = T.sum_instance(s)
        out.append(z3.Implies(z3.Or(*[b <= 0 for b in bounds]), s == 0))
        # sign: S<0 -> some body<0 ; S>0 -> some body>0
        for op in ("lt", "gt"):
            sk = [z3.Int(T.fresh_name("sk")) for _ in vs]
            b = z3.substitute(body, *zip(vs, sk))
            rng = z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(sk, bounds)])
            out.append(z3.Implies(s < 0 if op == "lt" else s > 0, z3.And(rng, b < 0 if op == "lt" else b > 0)))
    # a non-negative sum bounds each of its terms, at the indices in st["points"]
    for s in apps:
        bounds, vs, body = T.sum_instance(s)
        if len(vs) == 1:
            for t in st.get("points", []):
                key = ("pt", s.get_id(), t.get_id())
                if key in st["done"]:
                    continue
                st["done"].add(key)
                _keep.append(t)
                sk = z3.Int(T.fresh_name("sk"))
                out.append(z3.Implies(z3.And(t >= 0, t < bounds[0], s < z3.substitute(body, (vs[0], t))),
                                      z3.And(sk >= 0, sk < bounds[0], z3.substitute(body, (vs[0], sk)) < 0)))
    # extensionality
    for a, b in itertools.combinations(apps, 2):
        key = ("ext", min(a.get_id(), b.get_id()), max(a.get_id(), b.get_id()))
        if key in st["done"]:
            continue
        ba, va, ea = T.sum_instance(a)
        bb, vb, eb = T.sum_instance(b)
        if len(va) != len(vb):
            continue
        st["done"].add(key)
        if len(st["done"]) > 3000:
            continue
        for perm in (itertools.permutations(range(len(va))) if len(va) <= 2 else [range(len(va))]):
            sk = [z3.Int(T.fresh_name("sk")) for _ in va]
            rng = z3.And(*[z3.And(x >= 0, x < n) for x, n in zip(sk, ba)])
            same = z3.And(*[x == bb[j] for x, j in zip(ba, perm)])
            ebp = z3.substitute(eb, *[(vb[j], sk[i]) for i, j in enumerate(perm)])
            out.append(z3.Implies(z3.And(same, a != b), z3.And(rng, z3.substitute(ea, *zip(va, sk)) != ebp)))
    # linear combinations of sums with the same range, in comparisons
    seen2 = set()
    for e in exprs:
        for s in T.subterms(e, seen2, []):
            if z3.is_app(s) and s.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) \
                    and s.arg(0).sort() == T.R:
                key = ("lin", s.get_id())
                if key in st["done"]:
                    continue
                st["done"].add(key)
                _keep.append(s)
                out.extend(_linear(s.arg(0) - s.arg(1)))
    return out


def _linear(d):
    p = T.poly(d)
    groups = {}
    for m, c in p.items():
        ss = [(i, x) for i, x in m if T.is_sum(T._atoms[i])]
        if len(ss) != 1 or ss[0][1] != 1:
            continue
        s = T._atoms[ss[0][0]]
        free = tuple((i, x) for i, x in m if i != ss[0][0])
        bounds, vs, body = T.sum_instance(s)
        groups.setdefault(tuple(b.sexpr() for b in bounds), []).append((T.unmono(free, c), s, bounds, vs, body))
    out = []
    for g in groups.values():
        if len(g) < 2 or len(g[0][3]) != 1:
            continue
        n, v = g[0][2][0], z3.Int(T.fresh_name("lv"))
        body, lhs = T.rv(T.Fraction(0)), T.rv(T.Fraction(0))
        for c, s, bo, vs, b in g:
            body = body + c * z3.substitute(b, (vs[0], v))
            lhs = lhs + c * s
        tot = T._raw_sum(n, T.unpoly(T.poly(body)), v)
        out.append(lhs == tot)
    return out


def build_vc(pc, univs, goal, rounds=3, points=()):
    base = list(pc) + [z3.Not(goal)]
    all_ = list(base)
    seen, done = set(), set()
    st = {"done": set(), "points": list(points)}
    new = list(base)
    for r in range(rounds):
        add = []
        add += function_axioms(new, seen)
        add += sum_lemmas(all_, st)
        add += univ_instances(univs, all_ + add, done=done)
        add = [z3.simplify(a) for a in add]
        add = [a for a in add if not z3.is_true(a)]
        if not add:
            break
        all_ += add
        new = add
    all_ += function_axioms(new, seen)
    return all_


CVC5 = "/usr/bin/cvc5"
for _c in ("/usr/local/bin/cvc5", "/opt/veriftools/bin/cvc5", "/usr/bin/cvc5"):
    if os.path.exists(_c):
        CVC5 = _c
        break


def run_cvc5(asserts, timeout_ms):
    s = z3.Solver()
    s.add(*asserts)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run([CVC5, "--tlimit=%d" % timeout_ms, "--nl-ext-tplanes", f.name], capture_output=True,
                           text=True, timeout=timeout_ms / 1000. + 5)
        return p.stdout.strip().split("\n")[0]
    except Exception as e:
        return "error %s" % e
    finally:
        os.unlink(f.name)


def discharge(ob, timeout_ms=10000, use_cvc5=True, extra=()):
    """proved / refuted (with model) / unknown"""
    t0 = time.time()
    if ob.status == "proved":
        return ob
    goal = z3.simplify(ob.goal)
    from .prover import Prover
    pr = Prover(min(timeout_ms / 1000. * 3, 180), max(2500, timeout_ms / 4))
    if pr.prove(list(ob.pc), ob.univs, goal):
        ob.status, ob.backend, ob.time = "proved", "+".join(sorted(pr.backends)) or "z3", time.time() - t0
        return ob
    vc = build_vc(ob.pc, ob.univs, goal, points=extra)
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*vc)
    r = s.check()
    ob.backend = "z3"
    if r == z3.unknown:
        # split: z3's nonlinear tactic, then cvc5
        s2 = z3.Tactic("qfnra-nlsat").solver() if _pure_nra(vc) else None
        if s2 is not None:
            s2.set("timeout", timeout_ms)
            s2.add(*vc)
            r2 = s2.check()
            if r2 != z3.unknown:
                r, s = r2, s2
        if r == z3.unknown and use_cvc5:
            o = run_cvc5(vc, timeout_ms)
            if o == "unsat":
                r = z3.unsat
                ob.backend = "cvc5"
    ob.time = time.time() - t0
    if r == z3.unsat:
        ob.status = "proved"
    elif r == z3.sat:
        ob.status = "refuted"
        ob.model = s.model()
        ob.vc = vc
    else:
        ob.status = "unknown"
        ob.vc = vc
        ob.note = "solver: unknown (%s)" % s.reason_unknown()
    return ob


def _pure_nra(es):
    seen = set()
    for e in es:
        for s in T.subterms(e, seen, []):
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.num_args() > 0:
                return False
            if s.sort() == T.I:
                return False
    return True
