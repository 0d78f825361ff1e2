"""Loops over a symbolic number of iterations: the loop's effect is inferred from one generic iteration (an inductive
argument) and expressed in closed form: sums, appended sequences, unique writes, last values, and the first iteration
that leaves the loop."""
import types
import z3
from . import terms as T
from .terms import Term, Unsupported
from .sarr import SArr, Buf, memo
from .engine import PathEnd, Undefined


# ------------------------------------------------------------------ heap snapshots
LAZY = True     # local variables whose value is one of several objects: the case split waits until the variable is read


class Lazy(object):
    """the value of such a variable: finite[index]"""
    def __init__(self, d, key, finite, index):
        self.d, self.key, self.finite, self.index = d, key, finite, index
        self.forced = None      # (value,) on the path on which it was read

    def force(self):
        from .engine import EngineHook
        e = EngineHook.cur
        j = self.index
        if not isinstance(j, int):
            j = e.choose(len(self.finite))
            e.assume(T.eq(self.index, j))
            if not e.feasible(z3.BoolVal(True)):
                raise PathEnd()
        self.forced = (self.finite[j],)
        self.d[self.key] = self.finite[j]
        return self.finite[j]


class Heap(object):
    def __init__(self, roots):
        self.dicts, self.lists, self.bufs, self.sets = {}, {}, {}, {}
        self.frames, self.lazies = set(), []
        self.order = []
        self.keep = []
        self._walk(roots)

    def _walk(self, roots):
        from .interp import Frame, PList, _Layer
        seen = self.seen = set()
        st = list(roots)
        while st:
            o = st.pop()
            if o is None or isinstance(o, (int, float, str, bytes, Term, type, types.ModuleType,
                                           types.BuiltinFunctionType)):
                continue
            i = id(o)
            if i in seen:
                continue
            seen.add(i)
            self.keep.append(o)
            if isinstance(o, Lazy):
                self.lazies.append(o)
                st.extend(o.finite)
                continue
            if isinstance(o, Frame):
                if type(o.vars) is dict:
                    self.frames.add(id(o.vars))
                st.append(o.vars)
                if o.parent is not None:
                    st.append(o.parent)
                continue
            if isinstance(o, _Layer):
                st += [o.top, o.base]
                continue
            if isinstance(o, dict):
                if "__builtins__" in o:
                    continue        # module globals
                self.dicts[i] = (o, dict(o) if type(o) is dict else list(o.items()))
                st.extend(o.keys())
                st.extend(o.values())
            elif isinstance(o, PList):
                segs = o.segs
                items = list.copy(o) if segs is None else []
                items = [list.__getitem__(o, j) for j in range(list.__len__(o))]
                self.lists[i] = (o, items, None if segs is None else list(segs))
                st.extend(items)
                for s in segs or []:
                    if s[0] == "items":
                        st.extend(s[1])
            elif isinstance(o, list):
                self.lists[i] = (o, list(o), None)
                st.extend(o)
            elif isinstance(o, (set,)):
                self.sets[i] = (o, set(o))
                st.extend(o)
            elif isinstance(o, (tuple, frozenset)):
                st.extend(o)
            elif isinstance(o, SArr):
                self.bufs[id(o.buf)] = (o.buf, o.buf.fn)
                self.keep.append(o.buf)
            elif isinstance(o, types.FunctionType):
                if hasattr(o, "_pyvc_info"):
                    st.append(o._pyvc_info["frame"])
            elif isinstance(o, types.MethodType):
                st.append(o.__self__)
            elif isinstance(o, BaseException):
                continue
            elif hasattr(o, "__dict__"):
                if type(o).__module__.startswith(("pyvc.engine", "pyvc.interp", "pyvc.world")):
                    continue
                st.append(o.__dict__)

    def restore(self):
        for z in self.lazies:
            z.forced = None
        for o, c in self.dicts.values():
            if type(o) is dict:
                o.clear()
                o.update(c)
            else:
                dict.clear(o)
                o.clear()
                for k, v in c:
                    o[k] = v
        for o, c, segs in self.lists.values():
            list.clear(o)
            list.extend(o, c)
            if hasattr(o, "segs"):
                o.segs = None if segs is None else list(segs)
        for o, c in self.sets.values():
            o.clear()
            o.update(c)
        for b, f in self.bufs.values():
            b.fn = f

    def diff(self):
        """{loc: new value}; loc = ('d', id, key) | ('l', id, index) | ('app', id) | ('b', id)"""
        from .interp import PList
        out = {}
        for i, (o, c) in self.dicts.items():
            old = c if isinstance(c, dict) else dict(c)
            for k in o:
                if k not in old:
                    out[("d", i, k)] = (MISSING, o[k])
                elif isinstance(old[k], Lazy) and old[k].forced is not None and old[k].forced[0] is o[k]:
                    continue
                elif not same(old[k], o[k]):
                    out[("d", i, k)] = (old[k], o[k])
            for k in old:
                if k not in o:
                    raise Unsupported("deletion in a loop")
        for i, (o, c, segs) in self.lists.items():
            if isinstance(o, PList) and (o.segs is not None or segs is not None):
                a, b = segs or [], o.segs or []
                if seg_same(a, b):
                    continue
                app = seg_appended(a, b)
                if app is None:
                    raise Unsupported("list change in a loop")
                out[("app", i)] = (None, app)
                continue
            n = [list.__getitem__(o, j) for j in range(list.__len__(o))]
            if len(n) < len(c):
                raise Unsupported("list shrinks in a loop")
            for j in range(len(c)):
                if not same(c[j], n[j]):
                    out[("l", i, j)] = (c[j], n[j])
            if len(n) > len(c):
                out[("app", i)] = (None, n[len(c):])
        for i, (o, c) in self.sets.items():
            if o != c:
                raise Unsupported("set change in a loop")
        for i, (b, f) in self.bufs.items():
            if b.fn is not f:
                out[("b", i)] = (f, b.fn)
        return out


class _Missing(object):
    pass


MISSING = _Missing()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Term) and isinstance(b, Term):
        return a.k == b.k and a.e.eq(b.e)
    if type(a) is type(b) and isinstance(a, (int, float, str)):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return False


def seg_same(a, b):
    return len(a) == len(b) and all(x is y or (x[0] == y[0] == "items" and len(x[1]) == len(y[1]) and
                                               all(same(p, q) for p, q in zip(x[1], y[1]))) for x, y in zip(a, b))


def seg_appended(a, b):
    """items appended to segs a giving segs b"""
    if len(b) < len(a):
        return None
    for x, y in zip(a[:-1], b):
        if x is not y and not seg_same([x], [y]):
            return None
    if a:
        x, y = a[-1], b[len(a) - 1]
        if x is y or seg_same([x], [y]):
            extra = []
        elif x[0] == "items" and y[0] == "items" and len(y[1]) > len(x[1]):
            extra = list(y[1][len(x[1]):])
        else:
            return None
    else:
        extra = []
    for s in b[len(a):]:
        if s[0] != "items":
            return None
        extra += s[1]
    return extra


# ------------------------------------------------------------------ the loop
class Loc(object):
    """a modified location"""
    def __init__(self, key, init):
        self.key, self.init = key, init
        self.kind = None        # 'num' 'buf' 'app' 'opaque'
        self.k = None           # term kind for num
        self.pre = None
        self.step = None        # counters: changed by this constant in every iteration
        self.nostep = False
        self.finite = None      # the objects it can be, of which pre is the index
        self.closed = None      # num: fn(z3 k)->Term ; buf: fn(k)->fn(idx) ; app: fn


def subst(v, *pairs):
    if isinstance(v, Term):
        return T.wrap(z3.substitute(v.e, *pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, *pairs) for x in v)
    return v


def run(interp, n, body, frame):
    """executes the loop; True when it was left by break"""
    from .interp import BreakX, LeaveGen, ReturnX, ensure_legit, PList, Opaque
    from .engine import EngineHook
    e = EngineHook.cur
    if T.truth(T.le(n, 0)):
        return False
    roots = list(interp.frames) + [frame] + list(getattr(interp, "roots", []))
    heap = Heap(roots)
    kz = z3.Int(T.fresh_name("k"))
    k = Term(kz, "i")
    locs = {}

    def havoc(l):
        kind, key = l.kind, l.key
        if kind == "num":
            if l.finite is None:
                set_loc(heap, key, l.pre if l.step is None else T.add(l.init, T.mul(l.step, k)))
        elif kind == "opaque":
            set_loc(heap, key, Opaque("changed by a loop"))
        elif kind == "buf":
            heap.bufs[key[1]][0].fn = l.prefn
        elif kind == "app":
            o = heap.lists[key[1]][0]
            if isinstance(o, PList):
                segs = l.presegs
                list.clear(o)
                o.segs = list(segs)

    def one():
        interp_depth = len(interp.frames)
        try:
            for z in heap2[0].lazies:
                z.forced = None
            fin = [l for l in locs.values() if l.finite is not None and l.kind == "num"]
            for l in fin:       # one of the values it can have at the start of an iteration
                if deferred(heap, l):
                    set_loc(heap, l.key, Lazy(heap.dicts[l.key[1]][0], l.key[2], l.finite, l.pre))
                else:
                    pick(e, heap, l, l.pre)
            if fin:
                heap2[0] = Heap(roots)
            try:
                body(k)
                kind, val = "normal", None
            except BreakX:
                kind, val = "break", None
            except (ReturnX, LeaveGen):
                kind, val = "return", None
            except PathEnd:
                raise
            except Unsupported:
                raise
            except Undefined as u:
                kind, val = "undef", None
            except Exception as ex:
                ensure_legit(ex)
                kind, val = "raise", None
        finally:
            del interp.frames[interp_depth:]
        return kind, heap2[0].diff() if kind == "normal" else {}

    heap2 = [heap]

    def setup():
        heap.restore()
        for l in locs.values():
            havoc(l)
        heap2[0] = Heap(roots)      # diffs are taken against the havocked state
        e.assume(z3.And(kz >= 0, kz < T.ri(n)))

    for _ in range(12):
        res = e.explore(one, setup=setup, collect=lambda v, ex: (v, ex))
        new = False
        paths = []
        for pc, un, (v, ex) in res:
            if ex is not None:
                raise ex
            kind, diff = v
            paths.append((pc[1:], un, kind, diff))
            if kind != "normal":
                continue
            for key, (old, val) in diff.items():
                if key not in locs:
                    locs[key] = make_loc(heap, key, old, val)
                    new = True
                elif locs[key].kind == "num" and locs[key].finite is not None:
                    if known(locs[key].finite, val) is not None:
                        pass
                    elif stable(heap, val) and len(locs[key].finite) < 6:
                        locs[key].finite.append(val)
                        new = True
                    else:
                        init = locs[key].init
                        locs[key] = make_loc(heap, key, init, val) if isinstance(val, Term) else Loc(key, init)
                        if locs[key].kind is None:
                            locs[key].kind = "opaque"
                        new = True
                elif locs[key].kind == "num" and not T.isnum(val):
                    locs[key].kind = "opaque"
                    new = True
                elif locs[key].kind == "num" and T.kind(val) == "r" and locs[key].k != "r":
                    locs[key].k = "r"
                    locs[key].pre = Term(z3.Real(T.fresh_name("pre")), "r")
                    new = True
        for l in locs.values():
            if l.kind == "buf" and l.rank and l.region is not False:
                new = refine(l, paths) or new
        if not new and e.depth > 1:
            new = counters(locs, paths, k)
        if not new:
            break
    else:
        raise Unsupported("loop: modified locations do not stabilise")
    heap.restore()
    for pc, un, kind, diff in paths:
        if un and kind == "normal":
            raise Unsupported("quantified facts inside a loop iteration")
    solve(e, heap, locs, paths, kz, n)
    normal = [p for p in paths if p[2] == "normal"]
    exits = [p for p in paths if p[2] != "normal"]

    def sub_pre(ex, at):
        """substitute the closed forms (after `at` iterations) for the pre symbols"""
        pairs = [(l.pre.e, T.rr(l.closed(at)) if l.k == "r" else (T.ri(l.closed(at)) if l.k == "i" else T.rb(l.closed(at))))
                 for l in locs.values() if l.kind == "num" and l.closed is not None]
        un = {l.pre.e.decl().name() for l in locs.values() if l.kind == "num" and l.closed is None}
        ex = z3.substitute(ex, (kz, at.e if isinstance(at, Term) else z3.IntVal(at)))
        if pairs:
            ex = z3.substitute(ex, *pairs)
        bufs = [l for l in locs.values() if l.kind == "buf"]
        ex = replace_reads(ex, bufs, at)
        bad = un | {l.fname for l in bufs}
        if T.mentions(ex, bad):
            raise Unsupported("loop exit depends on an unsolved location")
        return ex

    def exit_cond(at):
        out = [sub_pre(z3.And(*p[0]) if p[0] else z3.BoolVal(True), at) for p in exits]
        return Term(z3.Or(*out), "b")

    def set_state(at):
        heap.restore()
        for l in locs.values():
            final(heap, l, at)

    def impossible(p):
        """an exit that the facts of a nested loop exclude (recorded, so that re-execution agrees)"""
        if e.pos < len(e.trail):
            d = e.trail[e.pos]
            e.pos += 1
            return d
        from .prover import Prover
        kk = z3.Int(T.fresh_name("kk"))
        d = False
        try:
            c = sub_pre(z3.And(*p[0]) if p[0] else z3.BoolVal(True), Term(kk, "i"))
            d = bool(Prover(12, 1500).prove(list(e.pc) + [kk >= 0, kk < T.ri(n)], list(e.univs), z3.simplify(z3.Not(c))))
        except Unsupported:
            pass
        e.trail.append(d)
        e.pos += 1
        return d

    if exits and e.depth > 1 and not any(p[1] for p in exits):
        left = [p for p in exits if not impossible(p)]
        if not left and normal:
            # the normal paths cover every iteration, so what they have in common always holds
            ids = set.intersection(*[{c.get_id() for c in p[0]} for p in normal])
            if ids:
                paths = normal = [([c for c in p[0] if c.get_id() not in ids],) + tuple(p[1:]) for p in normal]
                for l in locs.values():
                    l.closed = None
                heap.restore()
                solve(e, heap, locs, paths, kz, n)
        exits = left
    if exits:
        if any(p[1] for p in exits):
            raise Unsupported("quantified facts inside a loop iteration")
        ch = e.choose(2)
        if ch == 0:
            e.assume_univ(n, lambda j: T.not_(exit_cond(j)))
            if not normal:
                raise PathEnd()
            set_state(n)
            return False
        k0 = Term(z3.Int(T.fresh_name("k0")), "i")
        e.assume(z3.And(k0.e >= 0, k0.e < T.ri(n)))
        e.assume(exit_cond(k0))
        e.assume_univ(k0, lambda j: T.not_(exit_cond(j)))
        if not e.feasible(z3.BoolVal(True)):
            raise PathEnd()
        set_state(k0)
        try:
            body(k0)
        except BreakX:
            return True
        raise PathEnd()
    if not normal:
        raise PathEnd()
    set_state(n)
    return False


def counters(locs, paths, k):
    """numbers that every iteration changes by the same constant are known at the start of each one; True when more (or
    fewer) are known than before"""
    normal = [p for p in paths if p[2] == "normal"]
    new = False
    for l in locs.values():
        if l.kind != "num" or l.finite is not None or l.k != "i" or l.nostep or not normal:
            continue
        at = l.pre if l.step is None else T.add(l.init, T.mul(l.step, k))
        cs = set()
        for p in normal:
            v = p[3][l.key][1] if l.key in p[3] else None
            d = T.sub(v, at) if v is not None and T.isnum(v) and T.kind(v) == "i" else None
            if isinstance(d, Term):
                d = z3.simplify(d.e)
                d = d.as_long() if z3.is_int_value(d) else None
            cs.add(d)
        c = cs.pop() if len(cs) == 1 else None
        if l.step is None:
            if c:
                l.step = c
                new = True
        elif c != l.step:
            l.step, l.nostep = None, True
            new = True
    if not new:
        for l in locs.values():
            if l.step is not None:
                for p in normal:
                    p[3][l.key] = (p[3][l.key][0], T.add(l.pre, l.step))
    return new


def set_loc(heap, key, v):
    if key[0] == "d":
        heap.dicts[key[1]][0][key[2]] = v
    elif key[0] == "l":
        list.__setitem__(heap.lists[key[1]][0], key[2], v)


def make_loc(heap, key, old, val):
    from .interp import PList
    l = Loc(key, old)
    if key[0] == "b":
        if key[1] not in heap.bufs:
            raise Unsupported("new array changed across iterations")
        buf = heap.bufs[key[1]][0]
        r = len(buf.shape)
        srt = {"r": T.R, "i": T.I, "b": T.B}[buf.k]
        l.fname = T.fresh_name("preA")
        fn = z3.Function(l.fname, *([T.I] * r + [srt]))
        l.kind, l.k, l.decl = "buf", buf.k, fn
        l.prefn = lambda *i: Term(fn(*[T.ri(x) for x in i]), buf.k)
        l.initfn = heap.bufs[key[1]][1]
        l.rank = r
        l.region = None
        return l
    if key[0] == "app":
        if key[1] not in heap.lists or not isinstance(heap.lists[key[1]][0], PList):
            raise Unsupported("append to a native list")
        o, items, segs = heap.lists[key[1]]
        l.kind = "app"
        base = list(segs) if segs is not None else ([("items", items)] if items else [])
        l.base = base
        l.presegs = base + [("gen", Term(z3.Int(T.fresh_name("prelen")), "i"), _no_read)]
        return l
    if key[0] == "d" and key[1] not in heap.dicts or key[0] == "l" and key[1] not in heap.lists:
        raise Unsupported("unknown container in loop")
    num_new = T.isnum(val) and not T.is_inf(val)
    if old is not MISSING and stable(heap, old) and stable(heap, val):
        l.kind, l.k, l.finite = "num", "i", [old, val]
        l.pre = Term(z3.Int(T.fresh_name("pre")), "i")
        return l
    if old is MISSING:
        l.kind = "tempnum" if num_new else "opaque"
        if l.kind == "tempnum":
            l.k = T.kind(val)
            l.kind = "opaque_num"
        return _fix_missing(l)
    if num_new and T.isnum(old) and not T.is_inf(old):
        l.kind = "num"
        ks = {T.kind(old), T.kind(val)}
        l.k = "r" if "r" in ks else ("i" if "i" in ks else "b")
        if l.k == "i" and "b" in ks:
            l.kind = "opaque"
            return l
        l.pre = Term({"r": z3.Real, "i": z3.Int, "b": z3.Bool}[l.k](T.fresh_name("pre")), l.k)
        return l
    l.kind = "opaque"
    l.lastnum = num_new
    return l


def stable(heap, v):
    """a value that is the same object in every iteration"""
    return v is None or isinstance(v, (bool, str)) or not isinstance(v, Lazy) and \
        not T.isnum(v) and not isinstance(v, (tuple, SArr)) and hasattr(v, "__dict__") and id(v) in heap.seen


def known(vals, v):
    for j, x in enumerate(vals):
        if x is v or isinstance(x, str) and isinstance(v, str) and x == v:
            return j
    return None


def deferred(heap, l):
    return LAZY and l.key[0] == "d" and l.key[1] in heap.frames and isinstance(l.key[2], str)


def pick(e, heap, l, index):
    """the location gets the object of the given index"""
    if isinstance(index, int):
        j = index
    else:
        j = e.choose(len(l.finite))
        e.assume(T.eq(index, j))
        if not e.feasible(z3.BoolVal(True)):
            raise PathEnd()
    set_loc(heap, l.key, l.finite[j])


def _fix_missing(l):
    l.lastnum = l.kind == "opaque_num"
    l.kind = "opaque"
    return l


def _no_read(k):
    raise Unsupported("reading a list that the loop is appending to")


def _merge(vals):
    """[(cond z3, Term)] -> Term, conditions exhaustive"""
    out = vals[-1][1]
    for c, v in reversed(vals[:-1]):
        out = T.ite(T.wrap_b(z3.simplify(c)), v, out)
    return out


def delta(e, pre):
    """e - pre as an expression, pushed into if-then-else"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        da, db = delta(a, pre), delta(b, pre)
        if da.eq(db):
            return da
        return z3.If(c, da, db)
    if e.eq(pre):
        return rz(pre)
    if e.sort() == T.B:
        raise Unsupported("boolean accumulation")
    if e.sort() == T.I:
        return z3.simplify(e - pre)
    return T.unpoly(T.poly(e - pre))


def rz(pre):
    return T.rv(T.Fraction(0)) if pre.sort() == T.R else z3.IntVal(0)


_WITNESS = {"AM", "MV", "SPLINE", "count", "k0", "k0m", "k0w", "uninit", "sk", "root"}


def solve(eng, heap, locs, paths, kz, n):
    from .interp import Opaque
    normal = [p for p in paths if p[2] == "normal"]
    conds = [z3.And(*p[0]) if p[0] else z3.BoolVal(True) for p in normal]
    if len(normal) == 1:
        conds = [z3.BoolVal(True)]      # every iteration that is completed takes this path
    nums = [l for l in locs.values() if l.kind == "num"]
    pre_of = {l.pre.e.decl().name(): l for l in nums}
    buf_names = {l.fname for l in locs.values() if l.kind == "buf"}
    solved = []     # (pre expr, closed form z3 in kz)

    bufs = [l for l in locs.values() if l.kind == "buf"]

    mark = int(kz.decl().name().split("!")[1])

    def clean(ex):
        if solved:
            ex = z3.substitute(ex, *solved)
        ex = replace_reads(ex, bufs, Term(kz, "i"))
        for s in T.subterms(ex):        # a witness chosen within the iteration is not the same in all iterations
            if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                b = s.decl().name().split("!")
                if len(b) == 2 and b[0] in _WITNESS and b[1].isdigit() and int(b[1]) > mark:
                    raise Unsupported("value chosen within a loop iteration")
        return ex

    def unsolved():
        return {nm for nm, l in pre_of.items() if l.closed is None} | {l.fname for l in bufs if l.closed is None}

    def post(l):
        out = []
        for p, c in zip(normal, conds):
            d = p[3].get(l.key)
            out.append((c, l.pre if d is None else d[1] if l.finite is None else known(l.finite, d[1])))
        return out

    def z(v, k):
        return T.rr(v) if k == "r" else (T.ri(v) if k == "i" else T.rb(v))

    if not normal:
        return
    progress = True
    while progress:
        progress = False
        for l in nums:
            if l.closed is not None:
                continue
            pv = [(clean(c), clean(z(v, l.k))) for c, v in post(l)]
            un = unsolved()
            me = l.pre.e
            # temporary: value does not depend on the previous iteration
            if not any(T.mentions(v, un) or T.mentions(c, un) for c, v in pv):
                val = _merge([(c, T.wrap(v)) for c, v in pv])
                init = l.init if l.finite is None else 0

                def closed(at, val=val, init=init):
                    last = T.sub(at, 1)
                    v = subst(val, (kz, T.ri(last)))
                    return T.ite(T.le(at, 0), init, v)
                l.closed = closed
            else:
                if l.finite is not None:
                    continue
                if l.k == "b":
                    flag_loc(eng, l, pv, un, kz)
                    if l.closed is None:
                        continue
                else:
                    ds = [(c, delta(v, me)) for c, v in pv]
                    nz = [(c, d) for c, d in ds]
                    if any(T.mentions(d, un) for c, d in nz) or any(T.mentions(c, un) for c, d in nz):
                        # conditions may depend on unsolved locations only when every path has the same delta
                        if len({d.sexpr() for c, d in nz}) == 1 and not T.mentions(nz[0][1], un):
                            dd = T.wrap(nz[0][1])
                        else:
                            if extremum_loc(eng, l, pv, un, kz, n, locs, pre_of, normal, conds, clean):
                                progress = True
                                solved.extend(_pairs(locs, solved, kz))
                            continue
                    else:
                        dd = _merge([(c, T.wrap(d)) for c, d in nz])
                    init = l.init
                    isint = l.k == "i"

                    def closed(at, dd=dd, init=init, isint=isint):
                        s = T.mk_sum(0, at, lambda j: subst(dd, (kz, T.ri(j))))
                        if isint:
                            if isinstance(dd, int):
                                return T.add(init, T.mul(dd, at))
                            s = T.wrap_i(z3.ToInt(s.e)) if s.v is None else int(s.v)
                        return T.add(init, s)
                    l.closed = closed
            solved.append((l.pre.e, z(l.closed(Term(kz, "i")), l.k)))
            progress = True
        for l in bufs:
            if l.closed is None:
                try:
                    solve_buf(l, normal, conds, clean, unsolved() - {l.fname}, kz, eng, n)
                    if l.region not in (None, False):       # solved for the cells that are written
                        l.closed = (lambda l, cl: lambda at, idx: T.ite(T.wrap_b(z3.simplify(z3.substitute(
                            l.region, *[(a, T.ri(b)) for a, b in zip(l.rjs, idx)]))), cl(at, idx), l.initfn(*idx)))(l, l.closed)
                    progress = True
                except Unsupported as u:
                    l.why = u
        if not progress:        # an object about which nothing is known but that it is one of those
            for l in nums:
                if l.closed is None and l.finite is not None:
                    sel = z3.Function(T.fresh_name("sel"), T.I, T.I)

                    def closed(at, sel=sel, m=len(l.finite)):
                        x = Term(sel(T.ri(at)), "i")
                        return T.ite(T.le(at, 0), 0, T.ite(T.and_(T.le(0, x), T.lt(x, m)), x, 0))
                    l.closed = closed
                    solved.append((l.pre.e, z(l.closed(Term(kz, "i")), l.k)))
                    progress = True
                    break
    for l in nums:
        if l.closed is None:
            l.kind = "opaque"
            l.lastnum = False
    for l in locs.values():
        if l.kind == "opaque" and getattr(l, "lastnum", False):
            un = unsolved()
            vals = []
            for p, c in zip(normal, conds):
                d = p[3].get(l.key)
                if d is None or not T.isnum(d[1]):
                    vals = None
                    break
                v = d[1]
                v = clean(v.e) if isinstance(v, Term) else v
                c2 = clean(c)
                if T.mentions(c2, un) or (not isinstance(v, (int, float)) and T.mentions(v, un)):
                    vals = None
                    break
                vals.append((c2, T.wrap(v) if not isinstance(v, (int, float)) else v))
            if vals:
                l.kz = kz
                try:
                    l.last = _merge(vals)
                except Unsupported:
                    l.last = None
        elif l.kind == "buf":
            if l.closed is None:
                raise l.why
        elif l.kind == "app":
            solve_app(l, normal, conds, clean, unsolved(), kz, n)


def _pairs(locs, solved, kz):
    have = {s[0].decl().name() for s in solved}
    out = []
    for l in locs.values():
        if l.kind == "num" and l.closed is not None and l.pre.e.decl().name() not in have:
            v = l.closed(Term(kz, "i"))
            out.append((l.pre.e, T.rr(v) if l.k == "r" else (T.ri(v) if l.k == "i" else T.rb(v))))
    return out


def flag_loc(eng, l, pv, un, kz):
    """boolean flag set to a constant on some condition"""
    return


def extremum_loc(eng, l, pv, un, kz, n, locs, pre_of, normal, conds, clean):
    """running minimum/maximum (best value so far) -- not needed by loops with exits; left to the bounded stand-in"""
    return False


def solve_app(l, normal, conds, clean, un, kz, n):
    cnt = None
    vals = []
    for p, c in zip(normal, conds):
        d = p[3].get(l.key)
        items = [] if d is None else d[1]
        if cnt is None:
            cnt = len(items)
        elif cnt != len(items):
            raise Unsupported("conditional append in a loop of symbolic length")
        c2 = clean(c)
        it2 = []
        for v in items:
            if isinstance(v, Term):
                v = T.wrap(clean(v.e))
                if T.mentions(T.rr(v) if v.k == "r" else (T.ri(v) if v.k == "i" else T.rb(v)), un):
                    raise Unsupported("appended value depends on an unsolved location")
            elif not T.isnum(v):
                raise Unsupported("appending %r in a loop of symbolic length" % type(v))
            it2.append(v)
        vals.append((c2, it2))
    if len(vals) > 1 and any(T.mentions(c, un) for c, _ in vals):
        raise Unsupported("appended value depends on an unsolved location")
    merged = [_merge([(c, it[j]) for c, it in vals]) for j in range(cnt)]
    l.cnt = cnt

    def gen(at):
        if cnt == 1:
            return ("gen", at, memo(lambda i: subst(merged[0], (kz, T.ri(i)))))

        def g(i):
            q, r = T.floordiv(i, cnt), T.mod(i, cnt)
            out = subst(merged[-1], (kz, T.ri(q)))
            for j in range(cnt - 2, -1, -1):
                out = T.ite(T.eq(r, j), subst(merged[j], (kz, T.ri(q))), out)
            return out
        return ("gen", T.mul(cnt, at), memo(g))
    l.gen = gen


def solve_buf(l, normal, conds, clean, un, kz, eng, n):
    js = [z3.Int(T.fresh_name("j")) for _ in range(l.rank)]
    jt = [Term(j, "i") for j in js]
    pre = l.decl(*js) if l.rank else l.decl()
    pv = []
    for p, c in zip(normal, conds):
        d = p[3].get(l.key)
        v = l.prefn(*jt) if d is None else d[1](*jt)
        ve = T.rr(v) if l.k == "r" else (T.ri(v) if l.k == "i" else T.rb(v))
        pv.append((clean(c), clean(ve)))
    names = un | {l.fname}
    pr = _Prove(eng, kz, n)
    if l.region not in (None, False):
        reg = z3.substitute(l.region, *zip(l.rjs, js))
        pv = [(c, own_cell(v, l, js, pre, [c], pr)) for c, v in pv]
        pv = [(c, z3.simplify(inside(v, pre, reg, [], pr))) for c, v in pv]
    pv = [(c, own_cell(v, l, js, pre, [c], pr)) for c, v in pv]
    # accumulation
    try:
        ds = [(c, delta(v, pre)) for c, v in pv]
        if once(l, ds, names, js, kz, pr):
            return
        if not any(T.mentions(d, names) or T.mentions(c, names) for c, d in ds):
            dd = _merge([(c, T.wrap(d)) for c, d in ds])

            def closed(at, idx):
                m = dict(zip([j.decl().name() for j in js], idx))
                s = T.mk_sum(0, at, lambda i: subst(dd, *([(kz, T.ri(i))] + [(j, T.ri(x)) for j, x in zip(js, idx)])))
                if l.k == "i":
                    s = T.wrap_i(z3.ToInt(s.e)) if s.v is None else int(s.v)
                return T.add(l.initfn(*idx), s)
            l.closed = closed
            return
    except Unsupported:
        pass
    # unique writer
    writes = []
    for c, v in pv:
        _writes(v, pre, [c] if not z3.is_true(c) else [], writes)
    if not writes:
        l.closed = lambda at, idx: l.initfn(*idx)
        return
    ts0 = set()
    for cs, v in writes:
        t = None
        for x in _conj(cs):
            t = T._eq_solve1(z3.simplify(x), kz, {kz.decl().name()})
            if t is not None:
                break
        ts0.add(None if t is None else z3.simplify(t).sexpr())
        tsol = t
    if len(ts0) == 1 and tsol is not None:
        writes = [([own_reads(x, l, js, tsol, kz) for x in cs], own_reads(v, l, js, tsol, kz)) for cs, v in writes]
    for cs, v in writes:
        if any(T.mentions(x, names) for x in cs) or T.mentions(v, names):
            raise Unsupported("array update in a loop reads the array at other places")
    sols = []
    for cs, v in writes:
        flat = []
        for x in cs:
            flat.extend(x.children() if z3.is_and(x) else [x])
        t = None
        for x in flat:
            t = T._eq_solve1(z3.simplify(x), kz, {kz.decl().name()})
            if t is not None:
                break
        sols.append((flat, v, t))
    if all(t is None for _, _, t in sols) and not any(T.mentions(z3.And(*f), {kz.decl().name()}) if f else False
                                                       for f, _, _ in sols):
        # the same cells every iteration: the last iteration's values stay (n >= 1)
        def closed(at, idx):
            out = l.initfn(*idx)
            pairs = [(kz, T.ri(T.sub(at, 1)))] + [(j, T.ri(x)) for j, x in zip(js, idx)]
            for f, v, _ in sols:
                c = T.wrap_b(z3.simplify(z3.substitute(z3.And(*f), *pairs))) if f else True
                out = T.ite(T.and_(c, T.lt(0, at)), T.wrap(z3.substitute(v, *pairs)), out)
            return out
        l.closed = closed
        return
    ts = {t.sexpr() if t is not None else None for _, _, t in sols}
    if None in ts or len(ts) != 1:
        raise Unsupported("array written more than once per cell in a loop")
    sols = same_value(sols, kz, pr)

    def closed(at, idx):
        out = l.initfn(*idx)
        pj = [(j, T.ri(x)) for j, x in zip(js, idx)]
        for f, v, t in sols:
            tt = z3.substitute(t, *pj) if pj else t
            pairs = pj + [(kz, tt)]
            c = z3.And(*([tt >= 0, tt < T.ri(at)] + [z3.substitute(x, *pairs) for x in f]))
            out = T.ite(T.wrap_b(z3.simplify(c)), T.wrap(z3.substitute(v, *pairs)), out)
        return out
    l.closed = closed


def same_value(sols, kz, pr):
    """writes of the same value on several paths are one write; its condition is dropped when the paths cover everything"""
    if len({v.get_id() for _, v, _ in sols}) == len(sols) > 1:
        return sols
    out = []
    for f, v, t in sols:        # the conditions exclude each other
        for o in out:
            if o[1].eq(v):
                o[0].append(f)
                break
        else:
            out.append(([f], v, t))
    if len(out) == len(sols):
        return sols
    res = []
    for fs, v, t in out:
        if len(fs) > 1:
            common = [x for x in fs[0] if all(any(x.eq(y) for y in g) for g in fs[1:])]
            rest = [[x for x in g if not any(x.eq(y) for y in common)] for g in fs]
            any_ = z3.simplify(z3.Or(*[z3.And(*g) if g else z3.BoolVal(True) for g in rest]))
            fs = [common if pr.valid(common, any_) else common + [any_]]
        res.append((fs[0], v, t))
    return res


def _changes(v, same_as, cs, out):
    if any(v.eq(x) for x in same_as):
        return
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        _changes(a, same_as, cs + [c], out)
        _changes(b, same_as, cs + [z3.simplify(z3.Not(c))], out)
    else:
        out.append(cs)


def refine(l, paths):
    """cells that no iteration writes keep their initial value: True when what is known about them changed"""
    if l.region is None:
        l.rjs = [z3.Int(T.fresh_name("j")) for _ in range(l.rank)]
    js, jt = l.rjs, [Term(j, "i") for j in l.rjs]
    names = {j.decl().name() for j in js}
    same_as = [l.decl(*js), _sort_val(l.initfn(*jt), l.k)]
    same_as += [z3.simplify(x) for x in same_as]
    atoms = {}
    for pc, un, kind, diff in paths:
        d = diff.get(l.key) if kind == "normal" else None
        if d is None:
            continue
        ws = []
        _changes(_sort_val(d[1](*jt), l.k), same_as, [], ws)
        for cs in ws:
            keep = [x for x in _conj(cs) if all(s.decl().name() in names if not s.num_args() else
                                                s.decl().kind() != z3.Z3_OP_UNINTERPRETED
                                                for s in T.subterms(x) if z3.is_app(s) and (
                                                    s.num_args() or s.decl().kind() == z3.Z3_OP_UNINTERPRETED))]
            x = z3.simplify(z3.And(*keep)) if keep else z3.BoolVal(True)
            atoms[x.sexpr()] = x
    old = l.region
    if l.region is not None:
        for x in l.ratoms.values():
            atoms.setdefault(x.sexpr(), x)
        if set(atoms) == set(l.ratoms):
            return False
    l.ratoms = atoms
    r = z3.simplify(z3.Or(*atoms.values())) if atoms else z3.BoolVal(False)
    if z3.is_true(r):
        l.region = False
        l.prefn = lambda *i: Term(l.decl(*[T.ri(x) for x in i]), l.k)
    else:
        l.region = r
        l.prefn = lambda *i: T.ite(T.wrap_b(z3.simplify(z3.substitute(r, *[(a, T.ri(b)) for a, b in zip(js, i)]))),
                                   Term(l.decl(*[T.ri(x) for x in i]), l.k), l.initfn(*i))
    return True if old is not None or l.region is not False else False


def inside(v, pre, reg, cs, pr):
    """v, with what it is outside the written region replaced by pre"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and v.sort() != T.B:
        c, a, b = v.children()
        na, nb = inside(a, pre, reg, cs + [c], pr), inside(b, pre, reg, cs + [z3.Not(c)], pr)
        if na.eq(nb):
            return na
        if na.eq(pre) and pr.valid(cs + [reg], z3.Not(c)):
            return nb
        if nb.eq(pre) and pr.valid(cs + [reg], c):
            return na
        return z3.If(c, na, nb)
    if not v.eq(pre) and pr.valid(cs, z3.Not(reg)):
        return pre
    return _resolve(v, pre, cs + [reg], pr)


def _resolve(v, pre, cs, pr):
    """choices inside v that are decided under cs (only those with the cell's own previous value)"""
    if not z3.is_app(v) or v.eq(pre) or not v.num_args() or v.sort() == T.B or not _has(v, pre):
        return v
    if v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        if pr.valid(cs, c):
            return _resolve(a, pre, cs, pr)
        if pr.valid(cs, z3.Not(c)):
            return _resolve(b, pre, cs, pr)
        return z3.If(c, _resolve(a, pre, cs + [c], pr), _resolve(b, pre, cs + [z3.Not(c)], pr))
    if v.decl().kind() not in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV):
        return v
    ch = [_resolve(x, pre, cs, pr) for x in v.children()]
    return v if all(x.eq(y) for x, y in zip(ch, v.children())) else v.decl()(*ch)


def _has(v, pre):
    return any(s.eq(pre) for s in T.subterms(v))


class _Prove(object):
    """validity of small facts about the generic iteration"""
    def __init__(self, eng, kz, n):
        self.eng, self.kz, self.n = eng, kz, n
        self.memo = {}

    def valid(self, facts, goal):
        key = tuple(f.get_id() for f in facts) + (goal.get_id(),)
        if key in self.memo:
            return self.memo[key][0]
        g = z3.simplify(goal)
        r = False
        if z3.is_true(g):
            r = True
        elif not z3.is_false(g):
            sv = self.eng.solver
            sv.push()
            sv.add(self.kz >= 0, self.kz < T.ri(self.n), z3.Not(goal), *facts)
            r = sv.check() == z3.unsat
            sv.pop()
        self.memo[key] = (r, facts, goal)
        return r


def own_cell(v, l, js, pre, facts, pr):
    """reads of the written array at an index that the guards make equal to the cell's own index"""
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and v.sort() != T.B:
        c, a, b = v.children()
        if not _apps(v, {l.fname}):
            return v
        na = own_cell(a, l, js, pre, facts + [c], pr)
        nb = own_cell(b, l, js, pre, facts + [z3.Not(c)], pr)
        return v if na.eq(a) and nb.eq(b) else z3.If(c, na, nb)
    pairs = []
    for a in _apps(v, {l.fname}):
        if a.eq(pre) or any(_apps(x, {l.fname}) for x in a.children()):
            continue
        if pr.valid(facts, z3.And(*[x == j for x, j in zip(a.children(), js)])):
            pairs.append((a, pre))
    return z3.substitute(v, *pairs) if pairs else v


def _leaves(v, cs, out):
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        _leaves(a, cs + [c], out)
        _leaves(b, cs + [z3.simplify(z3.Not(c))], out)
    else:
        out.append((cs, v))


def once(l, ds, names, js, kz, pr):
    """every cell is changed by at most one iteration, kz == t(cell): closed form without a sum"""
    if any(T.mentions(d, names) or T.mentions(c, names) for c, d in ds):
        return False
    ws = []
    for c, d in ds:
        lv = []
        _leaves(d, [], lv)
        for cs, v in lv:
            if z3.is_rational_value(v) and v.as_fraction() == 0 or z3.is_int_value(v) and v.as_long() == 0:
                continue
            ws.append(([c] + cs, v))
    if not ws:
        return False
    t = None
    for cs, v in ws:
        found = None
        for x in _conj(cs):
            found = T._eq_solve1(x, kz, {kz.decl().name()})
            if found is not None:
                break
        cand = [found] if found is not None else ([t] if t is not None else []) + js
        ok = None
        for c in cand:
            if c is found or pr.valid(cs, kz == c):
                ok = c
                break
        if ok is None:
            return False
        ok = z3.simplify(ok)
        if t is None:
            t = ok
        elif not ok.eq(t):
            return False

    def closed(at, idx):
        pj = [(j, T.ri(x)) for j, x in zip(js, idx)]
        tt = z3.substitute(t, *pj)
        pairs = pj + [(kz, tt)]
        out = 0
        for cs, v in ws:
            c = z3.And(*([tt >= 0, tt < T.ri(at)] + [z3.substitute(x, *pairs) for x in cs]))
            out = T.ite(T.wrap_b(z3.simplify(c)), T.wrap(z3.substitute(v, *pairs)), out)
        return T.add(l.initfn(*idx), out)
    l.closed = closed
    return True


def _conj(cs):
    out = []
    for x in cs:
        x = z3.simplify(x)
        out.extend(x.children() if z3.is_and(x) else [x])
    return out


def _apps(ex, names):
    return [s for s in T.subterms(ex) if z3.is_app(s) and s.num_args() and
            s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.decl().name() in names]


def _sort_val(v, k):
    return T.rr(v) if k == "r" else (T.ri(v) if k == "i" else T.rb(v))


def own_reads(ex, l, js, t, kz):
    """each cell c is written by iteration t(c) only: a read at iteration k of a cell c with t(c) >= k gives the initial
    value"""
    for _ in range(8):
        aps = _apps(ex, {l.fname})
        aps = [a for a in aps if not any(_apps(c, {l.fname}) for c in a.children())]
        if not aps:
            return ex
        pairs = []
        for a in aps:
            ta = z3.substitute(t, *zip(js, a.children()))
            for pr in ([], [(kz, t)]):
                d = z3.simplify(z3.substitute(ta - kz, *pr) if pr else ta - kz)
                if z3.is_int_value(d) and d.as_long() >= 0:
                    pairs.append((a, _sort_val(l.initfn(*[T.wrap_i(x) for x in a.children()]), l.k)))
                    break
            else:
                return ex
        ex = z3.substitute(ex, *pairs)
    return ex


def replace_reads(ex, bufs, at):
    """reads of arrays changed by the loop, after `at` iterations, by their closed forms"""
    by = {l.fname: l for l in bufs if l.closed is not None}
    if not by:
        return ex
    for _ in range(20):
        hid = [s for s in T.subterms(ex) if T.is_sum(s) and not T.hidden(s.decl().name()).isdisjoint(by)]
        if hid:
            ex = z3.substitute(ex, *[(s, T.rebuild_sum(s, lambda e: replace_reads(e, bufs, at))) for s in hid])
            continue
        aps = _apps(ex, by)
        aps = [a for a in aps if not any(_apps(c, by) for c in a.children())]
        if not aps:
            return ex
        pairs = []
        for a in aps:
            l = by[a.decl().name()]
            pairs.append((a, _sort_val(l.closed(at, [T.wrap_i(x) for x in a.children()]), l.k)))
        ex = z3.substitute(ex, *pairs)
    raise Unsupported("nested array reads in a loop")


def _writes(v, pre, cs, out):
    if v.eq(pre):
        return
    if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = v.children()
        _writes(a, pre, cs + [c], out)
        _writes(b, pre, cs + [z3.simplify(z3.Not(c))], out)
        return
    out.append((cs, v))


def final(heap, l, at):
    from .interp import Opaque, PList
    if l.kind == "num":
        if l.finite is not None:
            from .engine import EngineHook
            if deferred(heap, l):
                set_loc(heap, l.key, Lazy(heap.dicts[l.key[1]][0], l.key[2], l.finite, l.closed(at)))
                return
            pick(EngineHook.cur, heap, l, l.closed(at))
            return
        set_loc(heap, l.key, l.closed(at))
    elif l.kind == "opaque":
        last = getattr(l, "last", None)
        if last is not None and not (isinstance(at, int) and at == 0):
            v = subst(last, (l.kz, T.ri(T.sub(at, 1))))
            set_loc(heap, l.key, v)
        else:
            set_loc(heap, l.key, Opaque("changed by a loop"))
    elif l.kind == "buf":
        cl = l.closed
        heap.bufs[l.key[1]][0].fn = memo(lambda *idx: cl(at, idx))
    elif l.kind == "app":
        o = heap.lists[l.key[1]][0]
        list.clear(o)
        o.segs = list(l.base) + ([l.gen(at)] if l.cnt else [])
