"""Discharge tactics on top of the solver: goal splitting, sums compared summand by summand, case splits on
if-then-else conditions, normalisation of products with inverses and logarithms whose arguments are known positive."""
import time
import z3
from fractions import Fraction
from . import terms as T
from .terms import INV, LOG, EXP
from . import engine as E

_CONN = (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES)
_CMP = (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)


class Out(BaseException):
    pass


class Prover(object):
    def __init__(self, budget_s, step_ms=2500):
        self.slow = max(1, step_ms / 2500.)
        self.end = time.time() + budget_s
        self.step = step_ms
        self.known_cache = {}
        self.positives = {}
        self.backends = set()

    def tick(self):
        if time.time() > self.end:
            raise Out()

    # ---- solver calls
    def unsat(self, fs, ms, cvc5=False):
        self.tick()
        if ms < self.step:
            ms *= self.slow
        ms = int(max(20, min(ms, (self.end - time.time()) * 1000)))
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*fs)
        r = s.check()
        if r == z3.unsat:
            self.backends.add("z3")
            return True
        if r == z3.sat:
            return False
        if E._pure_nra(fs):
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", ms)
            s.add(*fs)
            if s.check() == z3.unsat:
                self.backends.add("z3")
                return True
        if cvc5 and E.run_cvc5(fs, ms) == "unsat":
            self.backends.add("cvc5")
            return True
        return False

    def known(self, pc, c, ms=300):
        """pc |= c (quick)"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (tuple(p.get_id() for p in pc), c.get_id())
        if key not in self.known_cache:
            E._keep.append(c)
            fs = list(pc) + [z3.Not(c)]
            r = self.unsat(fs, ms)
            if not r:
                r = self.unsat(fs + E.function_axioms(fs, set()), ms)
            self.known_cache[key] = r
        return self.known_cache[key]

    # ---- entry
    def prove(self, pc, univs, goal):
        try:
            pc = flatten(pc)
            return self.go(pc, list(univs), z3.simplify(renorm(z3.simplify(goal))), 0)
        except Out:
            return False

    def go(self, pc, univs, g, depth):
        self.tick()
        if z3.is_true(g):
            self.backends.add("simplifier")
            return True
        if depth > 60:
            return False
        k = g.decl().kind()
        if k == z3.Z3_OP_AND:
            return all(self.go(pc, univs, x, depth + 1) for x in g.children())
        if k == z3.Z3_OP_IMPLIES:
            return self.go(flatten(pc + [g.arg(0)]), univs, g.arg(1), depth + 1)
        if k == z3.Z3_OP_OR:
            ch = g.children()
            # keep one disjunct as the goal, preferring an equality or comparison of reals
            def rank(x):
                return (0 if is_real_eq(x) else 1 if is_real_cmp(x) or z3.is_not(x) and is_real_eq(x.arg(0)) and has_sum(x)
                        else 2 if z3.is_and(x) else 3)
            if sum(is_real_eq(x) for x in ch) > 1:      # not one that is false
                ch = [x for x in ch if not is_real_eq(x) or not self.unsat(pc + [x], 100)] or ch
            ch = sorted(ch, key=lambda x: (rank(x), not has_sum(x)))
            return self.go(flatten(pc + [z3.simplify(z3.Not(x)) for x in ch[1:]]), univs, ch[0], depth + 1)
        if k == z3.Z3_OP_NOT:
            x = g.arg(0)
            if z3.is_or(x):
                return all(self.go(pc, univs, z3.simplify(z3.Not(y)), depth + 1) for y in x.children())
            if z3.is_and(x):
                return self.go(pc, univs, z3.simplify(z3.Or(*[z3.Not(y) for y in x.children()])), depth + 1)
            if x.decl().kind() in _CMP:
                a, b = x.children()
                o = {z3.Z3_OP_LE: a > b, z3.Z3_OP_GE: a < b, z3.Z3_OP_LT: a >= b, z3.Z3_OP_GT: a <= b}[x.decl().kind()]
                return self.atom(pc, univs, o, depth)
            if is_real_eq(x) and has_sum(x):
                d = x.arg(0) - x.arg(1)
                if self.unsat(pc + [x], 200) or self.atom(pc, univs, d > 0, depth + 1) or self.atom(pc, univs, d < 0, depth + 1):
                    return True
        if k == z3.Z3_OP_EQ and g.arg(0).sort() == z3.BoolSort():
            a, b = g.children()
            return self.go(flatten(pc + [a]), univs, b, depth + 1) and \
                self.go(flatten(pc + [z3.simplify(z3.Not(a))]), univs, z3.simplify(z3.Not(b)), depth + 1)
        if k == z3.Z3_OP_ITE and g.sort() == z3.BoolSort():
            c, a, b = g.children()
            return self.go(flatten(pc + [c]), univs, a, depth + 1) and \
                self.go(flatten(pc + [z3.simplify(z3.Not(c))]), univs, b, depth + 1)
        return self.atom(pc, univs, g, depth)

    def insts(self, pc, univs, extra, rounds=2):
        if not univs:
            return []
        out, done = [], set()
        for r in range(rounds + 4):
            new = E.univ_instances(univs, list(pc) + list(extra) + out, done=done, whole_only=r >= rounds)
            if not new:
                break
            out += new
        return out

    # ---- atomic goals
    def atom(self, pc, univs, g, depth):
        # cheap: congruence and linear arithmetic over the assumptions alone
        base = pc + self.insts(pc, univs, [g]) + [z3.Not(g)]
        if self.unsat(base, 400):
            return True
        if is_real_eq(g):
            d = g.arg(0) - g.arg(1)
            if has_sum(d):
                if self.sum_eq(pc, univs, d, depth):
                    return True
            elif self.eq_zero(pc, univs, d, depth):
                return True
        elif is_real_cmp(g):
            d, strict = as_ge(g)
            if has_sum(d):
                if self.sum_ge(pc, univs, d, strict, depth):
                    return True
        r = self.split_ite(pc, univs, g, depth)
        if r is not None:
            return r
        return self.leaf(pc, univs, g)

    def split_ite(self, pc, univs, g, depth):
        c = find_cond(g)
        if c is None:
            return None
        for val in (True, False):
            lit = c if val else z3.simplify(z3.Not(c))
            pc2 = flatten(pc + [lit])
            g2 = assign(g, c, val)
            if self.unsat(pc2 + self.insts(pc2, univs, [g2], 1), 200):
                continue
            if not self.go(pc2, univs, g2, depth + 1):
                return False
        return True

    def leaf(self, pc, univs, g):
        if is_real_eq(g):
            d = T.poly(g.arg(0) - g.arg(1))
            d = self.norm(pc, d)
            if not d:
                return True
            g2 = T.unpoly(d) == 0
        elif is_real_cmp(g):
            d, strict = as_ge(g)
            p = self.cancel(pc, T.poly(d))
            if not p:
                if not strict:
                    return True
            e = T.unpoly(p)
            g2 = e > 0 if strict else e >= 0
        else:
            g2 = g
        inst = self.insts(pc, univs, [g2])
        fs = pc + inst + [z3.Not(g2)]
        if is_real_cmp(g2) and self.monotone(pc, univs, p, strict):
            return True
        # axioms of the functions in the goal first, then everything
        ax = E.function_axioms([g2], set())
        if self.unsat(fs + ax, self.step):
            return True
        if is_real_cmp(g2):
            for lem in self.products(pc, p):
                if self.unsat(fs + ax + lem, self.step):
                    return True
        mono = monotone_lemmas(fs)
        if mono and self.unsat(fs + ax + mono + E.function_axioms(mono, set()), self.step):
            return True
        edge = boundary_instances(univs)
        if edge and self.unsat(fs + edge + E.function_axioms(edge + fs, set()), self.step):
            return True
        vc = E.build_vc(pc, univs, g2)
        return self.unsat(vc, self.step, cvc5=True)

    def monotone(self, pc, univs, p, strict):
        """p > 0 or p >= 0 for: a common factor that is known positive; c*(EXP(a) - EXP(b)); c*(LOG(a) - LOG(b))"""
        if len(p) < 2:
            return False
        ms = list(p)
        com = [(i, x) for i, x in ms[0] if all((i, x) in m for m in ms)]
        com = [(i, x) for i, x in com if self.known(pc, atom_r(i) > 0) or T._atoms[i].decl().eq(INV) and
               self.known(pc, T._atoms[i].arg(0) > 0)]
        if com:
            q = {tuple(y for y in m if y not in com): c for m, c in p.items()}
            e = T.unpoly(q)
            return self.atom(pc, univs, e > 0 if strict else e >= 0, 40)
        if len(p) == 2 and sum(p.values()) == 0 and all(len(m) == 1 and m[0][1] == 1 for m in ms):
            (m1, c1), (m2, c2) = sorted(p.items(), key=lambda t: -t[1])
            a, b = T._atoms[m1[0][0]], T._atoms[m2[0][0]]
            for f in (EXP, LOG):
                if a.decl().eq(f) and b.decl().eq(f):
                    if f.eq(LOG) and not (self.known(pc, a.arg(0) > 0) and self.known(pc, b.arg(0) > 0)):
                        return False
                    d = T.unpoly(T.poly(a.arg(0) - b.arg(0)))
                    return self.atom(pc, univs, d > 0 if strict else d >= 0, 40)
        return False

    def products(self, pc, p):
        """for monomials a*LOG(x): multiply the bounds of LOG(x) by the sign of a"""
        lem = []
        for m in p:
            logs = [(i, x) for i, x in m if x == 1 and T._atoms[i].decl().eq(LOG)]
            if len(logs) == 1:
                co = T.unmono(tuple(q for q in m if q[0] != logs[0][0]))
                arg = T._atoms[logs[0][0]].arg(0)
                lg = T._atoms[logs[0][0]]
                iv = T.inv_e(arg)
                if self.known(pc, arg > 0) and self.known(pc, co >= 0):
                    for rhs, lo in ((arg - 1, False), (1 - iv, True)):
                        q = self.cancel(pc, T.poly(co * rhs))
                        lem.append(co * lg >= T.unpoly(q) if lo else co * lg <= T.unpoly(q))
        return [lem] if lem else []

    # ---- normal forms under the path condition
    def cancel(self, pc, p, univs=None):
        out = {}
        for m, c in p.items():
            d = {}
            for i, x in m:
                d.setdefault(i, []).append(x)
            mm = []
            for i, xs in d.items():
                if len(xs) > 1 and (univs is not None and has_sum(atom_r(i)) and self.positive(pc, univs, i) or
                                    self.known(pc, atom_r(i) != 0)):
                    s = sum(xs)
                    if s:
                        mm.append((i, s))
                else:
                    mm.extend((i, x) for x in xs)
            mm = tuple(sorted(mm))
            out[mm] = out.get(mm, 0) + c
        return {m: c for m, c in out.items() if c}

    def positive(self, pc, univs, i):
        ids = frozenset(p.get_id() for p in pc)
        if any(k <= ids for k in self.positives.get(i, ())):      # under fewer assumptions already
            return True
        key = (ids, "sum", i)
        if key not in self.known_cache:
            E._keep.extend(pc)
            self.known_cache[key] = self.sum_ge(pc, univs, atom_r(i), True, 45)
            if self.known_cache[key]:
                self.positives.setdefault(i, []).append(ids)
        return self.known_cache[key]

    def norm(self, pc, p):
        """expand logarithms of products of positive atoms and cancel inverses"""
        p = self.cancel(pc, p)
        out = {}
        for m, c in p.items():
            acc = {(): c}
            for i, x in m:
                a = T._atoms[i]
                f = {((i, x),): Fraction(1)}
                if a.sort() == T.R and x > 0 and a.decl().eq(LOG):
                    f = self.log_poly(pc, a) or f
                    for _ in range(x):
                        acc = T._p_mul(acc, f)
                    continue
                acc = T._p_mul(acc, f)
            for mm, cc in acc.items():
                out[mm] = out.get(mm, 0) + cc
        return self.cancel(pc, {m: c for m, c in out.items() if c})

    def log_poly(self, pc, a):
        x = T.poly(a.arg(0))
        x = self.cancel(pc, x)
        if len(x) != 1:
            e = T.unpoly(x)
            if z3.is_app(e) and self.known(pc, e == 1):
                return {(): Fraction(0)}
            l = LOG(e)
            T._atoms[l.get_id()] = l
            return {((l.get_id(), 1),): Fraction(1)}
        (m, c), = x.items()
        if c <= 0:
            return None
        out = {}
        if c != 1:
            l = LOG(T.rv(c))
            T._atoms[l.get_id()] = l
            out[((l.get_id(), 1),)] = Fraction(1)
        for i, e in m:
            t = atom_r(i)
            if not self.known(pc, t > 0):
                return None
            if z3.is_app(t) and t.decl().eq(EXP):
                q = T.poly(t.arg(0))
            else:
                l = LOG(t)
                T._atoms[l.get_id()] = l
                q = {((l.get_id(), 1),): Fraction(1)}
            for mm, cc in q.items():
                out[mm] = out.get(mm, 0) + cc * e
        return out

    def eq_zero(self, pc, univs, d, depth):
        if find_cond(d) is not None:
            return False
        return False

    # ---- sums
    def combine(self, d):
        """d as (rest polynomial, [(bounds, vars, body)]) with sums over equal ranges merged; None if not linear"""
        p = T.poly(d)
        groups, rest = {}, {}
        for m, c in p.items():
            ss = [(i, x) for i, x in m if T.is_sum(T._atoms[i])]
            if not ss:
                rest[m] = c
                continue
            if len(ss) != 1 or ss[0][1] != 1:
                return None
            s = T._atoms[ss[0][0]]
            free = tuple(q for q in m if q[0] != ss[0][0])
            bounds, vs, body = T.sum_instance(s)
            key = tuple(z3.simplify(b).sexpr() for b in bounds)
            groups.setdefault(tuple(sorted(key)), []).append((T.unmono(free, c), bounds, vs, body, key))
        out = []
        for g in groups.values():
            c0, bo, vs0, b0, key0 = g[0]
            body = c0 * b0
            for c, b, vs, bb, key in g[1:]:
                # align variables by bound
                perm, used = [], set()
                for kk in key:
                    j = [j for j in range(len(key0)) if key0[j] == kk and j not in used]
                    if not j:
                        return None
                    used.add(j[0])
                    perm.append(j[0])
                body = body + c * z3.substitute(bb, *[(v, vs0[j]) for v, j in zip(vs, perm)])
            if len(bo) == 1:        # c * n belongs to the sum over n bins
                nb = z3.simplify(z3.ToReal(bo[0]))
                for m in list(rest):
                    if len(m) == 1 and m[0][1] == 1 and z3.simplify(atom_r(m[0][0])).eq(nb):
                        body = body + T.rv(rest.pop(m))
            out.append((bo, vs0, body))
        return rest, out

    def pointwise(self, pc, univs, bo, vs, mk, depth):
        sk = [z3.Int(T.fresh_name("sk")) for _ in vs]
        rng = []
        for v, b in zip(sk, bo):
            rng += [v >= 0, v < b]
        return self.go(flatten(pc + rng), univs, z3.simplify(z3.substitute(mk, *zip(vs, sk))), depth + 1)

    def sum_eq(self, pc, univs, d, depth):
        cd = find_cond(d)
        if cd is not None:          # decide conditions outside the sums first
            return self.split_ite(pc, univs, d == 0, depth) or False
        p = T.poly(d)
        q = self.cancel(pc, p, univs)
        if q != p:
            d = T.unpoly(q)
            if not has_sum(d):
                return self.go(pc, univs, z3.simplify(d == 0), depth + 1)
        r = self.combine(d)
        if r is None:
            return False
        rest, gs = r
        e = T.unpoly(rest)
        if not gs:
            return self.go(pc, univs, z3.simplify(e == 0), depth + 1)
        if rest and self.cancel(pc, rest) and not self.go(pc, univs, z3.simplify(e == 0), depth + 1):
            return False
        for bo, vs, body in gs:
            if not self.pointwise(pc, univs, bo, vs, body == 0, depth):
                return False
        self.backends.add("sum-ext")
        return True

    def pos(self, pc, e, strict=True):
        """e > 0 (e >= 0) by its structure"""
        if z3.is_rational_value(e):
            return e.as_fraction() > 0 or not strict and e.as_fraction() == 0
        k = e.decl().kind()
        if e.decl().eq(EXP):
            return True
        if e.decl().eq(E.SQRT):
            return not strict or self.pos(pc, e.arg(0))
        if e.decl().eq(INV):
            return self.pos(pc, e.arg(0), strict)
        if k == z3.Z3_OP_MUL:
            return all(self.pos(pc, x, strict) for x in e.children())
        if k == z3.Z3_OP_ADD:
            return all(self.pos(pc, x, False) for x in e.children()) and (
                not strict or any(self.pos(pc, x) for x in e.children())) or self.known(pc, e > 0 if strict else e >= 0)
        return self.known(pc, e > 0 if strict else e >= 0)

    def sum_ge(self, pc, univs, d, strict, depth):
        if find_cond(d) is not None:
            g = d > 0 if strict else d >= 0
            return self.split_ite(pc, univs, g, depth) or False
        p = T.poly(d)
        if strict and len(p) == 1:      # a product: every factor is positive
            (m, c), = p.items()
            if c > 0 and len(m) > 1 and all(x > 0 and T.is_sum(T._atoms[i]) or self.pos(pc, atom_r(i)) for i, x in m):
                if all(not T.is_sum(T._atoms[i]) or self.positive(pc, univs, i) for i, x in m):
                    return True
        r = self.combine(d)
        if r is None:
            return False
        rest, gs = r
        e = T.unpoly(rest)
        if strict and gs and not self.known(pc, e > 0) and (not rest or self.go(pc, univs, z3.simplify(e >= 0), depth + 1)):
            # one sum over a non-empty range of positive terms is enough
            for i, (bo, vs, body) in enumerate(gs):
                if all(self.known(pc, b > 0) for b in bo) and self.pointwise(pc, univs, bo, vs, body > 0, depth):
                    for bo2, vs2, body2 in gs[:i] + gs[i + 1:]:
                        if not self.pointwise(pc, univs, bo2, vs2, body2 >= 0, depth):
                            return False
                    self.backends.add("sum-mono")
                    return True
        if rest or strict:
            if not self.go(pc, univs, z3.simplify(e > 0 if strict else e >= 0), depth + 1):
                return False
        for bo, vs, body in gs:
            if not self.pointwise(pc, univs, bo, vs, body >= 0, depth):
                return False
        self.backends.add("sum-mono")
        return True


def monotone_lemmas(fs, limit=8):
    """LOG and EXP are increasing: for the pairs of their applications"""
    out = []
    for f in (LOG, EXP):
        ts, seen = {}, set()
        for e in fs:
            for s in T.subterms(e, seen, []):
                if z3.is_app(s) and s.decl().eq(f):
                    ts[s.get_id()] = s
        ts = list(ts.values())[:limit]
        for i, a in enumerate(ts):
            for b in ts[:i]:
                x, y = a.arg(0), b.arg(0)
                g = z3.And(x > 0, y > 0) if f.eq(LOG) else z3.BoolVal(True)
                out.append(z3.Implies(g, z3.And((x < y) == (a < b), (x == y) == (a == b))))
    return out


def atom_r(i):
    a = T._atoms[i]
    return z3.ToReal(a) if a.sort() == T.I else a


def is_real_eq(g):
    return z3.is_eq(g) and g.arg(0).sort() == T.R


def is_real_cmp(g):
    return z3.is_app(g) and g.decl().kind() in _CMP and g.arg(0).sort() == T.R


def as_ge(g):
    a, b = g.children()
    k = g.decl().kind()
    return {z3.Z3_OP_GE: (a - b, False), z3.Z3_OP_GT: (a - b, True), z3.Z3_OP_LE: (b - a, False),
            z3.Z3_OP_LT: (b - a, True)}[k]


def has_sum(e):
    return any(T.is_sum(s) for s in T.subterms(e))


def flatten(fs):
    out, ids = [], set()
    st = list(reversed([z3.simplify(f) for f in fs]))
    while st:
        f = st.pop()
        if z3.is_and(f):
            st.extend(reversed(f.children()))
        elif z3.is_not(f) and z3.is_or(f.arg(0)):
            st.extend(z3.simplify(z3.Not(c)) for c in f.arg(0).children())
        elif not z3.is_true(f) and f.get_id() not in ids:
            ids.add(f.get_id())
            E._keep.append(f)
            out.append(f)
    return out


def find_cond(e):
    """an atomic condition of an if-then-else inside e (innermost first, so that it contains no if-then-else)"""
    best = None
    for s in T.subterms(e):
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_ITE:
            c = s.arg(0)
            while True:
                inner = None
                for t in T.subterms(c):
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                        inner = t
                        break
                if inner is not None:
                    c = inner.arg(0)
                    continue
                while c.decl().kind() in _CONN:
                    c = c.arg(0)
                if c.decl().kind() == z3.Z3_OP_EQ and c.arg(0).sort() == z3.BoolSort():
                    c = c.arg(0)
                    continue
                break
            if not (z3.is_true(c) or z3.is_false(c)):
                return c
    return best


def assign(g, c, val):
    g = z3.substitute(g, (c, z3.BoolVal(val)))
    return z3.simplify(renorm(z3.simplify(g)))


def renorm(e, memo=None):
    """re-apply the normalisation of INV after simplification"""
    memo = {} if memo is None else memo

    def r(x):
        i = x.get_id()
        if i in memo:
            return memo[i][1]
        if z3.is_app(x) and x.num_args():
            ch = [r(y) for y in x.children()]
            if x.decl().eq(INV):
                y = T.inv_e(ch[0])
            elif x.decl().kind() == z3.Z3_OP_TO_REAL:
                y = T.to_real_e(ch[0])
            elif any(a.get_id() != b.get_id() for a, b in zip(ch, x.children())):
                y = rebuild(x, ch)
            else:
                y = x
        else:
            y = x
        memo[i] = (x, y)
        return y
    return r(e)


def rebuild(x, ch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return z3.And(*ch)
    if k == z3.Z3_OP_OR:
        return z3.Or(*ch)
    if k == z3.Z3_OP_ADD:
        return z3.Sum(*ch)
    if k == z3.Z3_OP_MUL:
        return z3.Product(*ch)
    return x.decl()(*ch)


def boundary_instances(univs, limit=12):
    """instances of the universals over one index where their case distinctions on that index change"""
    out = []
    for u in univs:
        if len(u.vars) != 1:
            continue
        for k in boundaries(u.body, u.vars[0])[:limit]:
            out.append(z3.simplify(renorm(z3.simplify(z3.substitute(u.body, (u.vars[0], k))))))
    return [o for o in out if not z3.is_true(o)]


def boundaries(body, v):
    """index terms at which comparisons of v in body change, and their neighbours"""
    cands = {}
    for s in T.subterms(body):
        if z3.is_app(s) and s.decl().kind() in _CMP and s.arg(0).sort() == T.I and T.mentions(s, {v.decl().name()}):
            d = s.arg(0) - s.arg(1)
            one, zero = z3.substitute(d, (v, z3.IntVal(1))), z3.substitute(d, (v, z3.IntVal(0)))
            c = z3.simplify(one - zero)
            if z3.is_int_value(c) and abs(c.as_long()) == 1:
                t = z3.simplify(-zero if c.as_long() == 1 else zero)
                for x in (t, t - 1, t + 1):
                    x = z3.simplify(x)
                    cands[x.get_id()] = x
    E._keep.extend(cands.values())
    return list(cands.values())
