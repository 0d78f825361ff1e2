"""The two worlds a contract harness runs in: SymWorld (proof, all inputs) and ConWorld (the real code under CPython)."""
import itertools
import math
import random
import z3
from . import terms as T
from . import sarr as SA
from .sarr import SArr
from .terms import Term, Unsupported, EngineHook
from .engine import Engine, PathEnd, Undefined
from .interp import Interp, ensure_legit, mark, PList, sym_iter, b_len, b_isinstance


class Discard(Exception):
    pass


class CheckFailed(Exception):
    def __init__(self, name, detail=""):
        Exception.__init__(self, name)
        self.name, self.detail = name, detail


class Outcome(object):
    def __init__(self, value=None, exc=None, undefined=None):
        self.value, self.exc, self.undefined = value, exc, undefined

    @property
    def ok(self):
        return self.exc is None and self.undefined is None

    def raised(self, *names):
        """an exception whose class or one of its bases has one of these names"""
        if self.exc is None:
            return False
        if not names:
            return True
        return any(c.__name__ in names for c in type(self.exc).__mro__)

    def __repr__(self):
        if self.undefined:
            return "undefined(%s)" % self.undefined
        if self.exc is not None:
            return "%s(%s)" % (type(self.exc).__name__, str(self.exc)[:200])
        return "value"


class Input(object):
    def __init__(self, name, kind, sym, shape=None):
        self.name, self.kind, self.sym, self.shape = name, kind, sym, shape


# ------------------------------------------------------------------ symbolic
class SymWorld(object):
    sym = True

    def __init__(self, engine, tier="quick"):
        self.e = engine
        self.tier = tier
        self.interp = None
        self.inputs = []
        self.choices = {}
        self.notes = set()

    def begin(self):
        self.inputs = []
        self.choices = {}
        T.NONZERO.clear()
        T.POSITIVE.clear()
        T._SIG[0] = frozenset()
        self.interp.roots = []
        self.interp.frames = []

    # inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None, pool=None, int_ok=False):
        v = z3.Real(name)
        self.inputs.append(Input(name, "real", v))
        t = Term(v, "r")
        self._bounds(t, lo, hi, gt, lt)
        return t

    def int(self, name, lo=None, hi=None, pool=None, big=None):
        v = z3.Int(name)
        self.inputs.append(Input(name, "int", v))
        t = Term(v, "i")
        self._bounds(t, lo, hi, None, None)
        return t

    def dim(self, name, lo=1, hi=None):
        """a size: number of bins or events"""
        v = z3.Int(name)
        self.inputs.append(Input(name, "dim", v))
        t = Term(v, "i")
        self._bounds(t, lo, hi, None, None)
        return t

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs.append(Input(name, "bool", v))
        return T.truth(Term(v, "b"))

    def _bounds(self, t, lo, hi, gt, lt):
        lo, hi, gt, lt = [self.num(x) if isinstance(x, str) else x for x in (lo, hi, gt, lt)]
        for c in ([T.le(lo, t)] if lo is not None else []) + ([T.le(t, hi)] if hi is not None else []) + \
                 ([T.lt(gt, t)] if gt is not None else []) + ([T.lt(t, lt)] if lt is not None else []):
            self.e.assume(c)
        cl, ch, cg, ct = [None if x is None else T.const(x) for x in (lo, hi, gt, lt)]
        if (cl is not None and cl > 0) or (cg is not None and cg >= 0):
            T.register_positive(T.rr(t))
        elif (ch is not None and ch < 0) or (ct is not None and ct <= 0):
            T.register_nonzero(T.rr(t))

    def array(self, name, shape, lo=None, hi=None, gt=None, lt=None, k="r", pool=None):
        """fresh array; bounds hold for every element"""
        srt = {"r": T.R, "i": T.I, "b": T.B}[k]
        shape = tuple(shape)
        f = z3.Function(name, *([T.I] * len(shape) + [srt]))
        self.inputs.append(Input(name, "array" + k, f, shape))
        lo, hi, gt, lt = [self.num(x) if isinstance(x, str) else x for x in (lo, hi, gt, lt)]

        def at(*i):
            return Term(f(*[T.ri(x) for x in i]), k)
        a = SArr.make(shape, at, k, name)
        if lo is not None or hi is not None or gt is not None or lt is not None:
            def ok(*i):
                t = at(*i)
                return T.and_(*([T.le(lo, t)] if lo is not None else []), *([T.le(t, hi)] if hi is not None else []),
                              *([T.lt(gt, t)] if gt is not None else []), *([T.lt(t, lt)] if lt is not None else []))
            if all(isinstance(d, int) for d in shape):
                for idx in itertools.product(*[range(d) for d in shape]):
                    self.e.assume(ok(*idx))
            else:
                self.e.assume_univ(list(shape), ok)
        return a

    def func(self, name, nreal, nint=0, pool=None):
        """an arbitrary function of nreal numbers and nint indices"""
        f = z3.Function(T.fresh_name(name), *([T.R] * nreal + [T.I] * nint + [T.R]))
        return lambda *a: Term(f(*([T.rr(T.to_real(x)) for x in a[:nreal]] + [T.ri(x) for x in a[nreal:]])), "r")

    def build(self, shape, fn):
        """the array of the values of fn"""
        return SArr.make(tuple(shape), lambda *i: T.to_real(fn(*i)), "r")

    def choose(self, name, options):
        j = self.e.choose(len(options))
        self.choices[name] = j
        return options[j]

    def require(self, c):
        self.e.assume(T.tb(c))

    def require_all(self, shape, fn):
        self.e.assume_univ(list(shape) if isinstance(shape, (tuple, list)) else [shape], fn)

    # code under test
    def module(self, name):
        return self.interp.module(name)

    def override(self, mod, attr, v):
        self.interp.override(mod, attr, v)

    def root(self, *objs):
        self.interp.roots.extend(objs)

    def call(self, f, *a, **k):
        try:
            return Outcome(value=self.interp.call(f, a, k))
        except Undefined as u:
            return Outcome(undefined=u.what)
        except Exception as ex:
            ensure_legit(ex)
            return Outcome(exc=ex)

    # obligations
    def check(self, name, cond):
        if callable(cond):
            cond = cond()
        ob = self.e.oblige(name, T.tb(cond))
        ob.inputs = list(self.inputs)
        ob.choices = dict(self.choices)
        return ob

    def known_check(self, name, cond):
        """a check that fails on a recorded finding: evaluated on the real code only"""

    def check_all(self, name, shape, fn):
        """for every index in the shape"""
        shape = list(shape) if isinstance(shape, (tuple, list)) else [shape]
        if all(isinstance(d, int) for d in shape):
            n = 1
            for d in shape:
                n *= d
            if n <= 64:
                for idx in itertools.product(*[range(d) for d in shape]):
                    self.check(name, fn(*idx))
                return
        e = self.e
        sk = [Term(z3.Int(T.fresh_name("sk")), "i") for _ in shape]
        rng = z3.And(*[z3.And(s.e >= 0, s.e < T.ri(d)) for s, d in zip(sk, shape)])

        def one():
            return fn(*sk)

        def setup():
            e.assume(rng)
        res = e.explore(one, setup=setup, collect=lambda v, ex: (v, ex))
        n0, u0 = len(e.pc), len(e.univs)
        for pc, un, (v, ex) in res:
            if ex is not None:
                if isinstance(ex, Exception):
                    ensure_legit(ex)
                    v = False
                else:
                    raise ex
            e.pc.extend(pc)
            e.univs.extend(un)
            self.check(name, v)
            del e.pc[n0:]
            del e.univs[u0:]

    def cover(self, name):
        """reachability: this point must be feasible (guards against vacuous contracts)"""
        self.covers.add(name)

    # mathematics of the specifications
    def num(self, s):
        return T.real_const(T.Fraction(str(s)))

    def sum(self, n, fn):
        if isinstance(n, (tuple, list)):
            def go(i, idx):
                if i == len(n):
                    return fn(*idx)
                return T.mk_sum(0, n[i], lambda k: go(i + 1, idx + [k]))
            return go(0, [])
        return T.mk_sum(0, n, fn)

    def eq(self, a, b, tol=None):
        if a is None or b is None:
            return a is b
        if not T.isnum(a) or not T.isnum(b):
            if isinstance(a, SArr) and a.ndim == 0:
                return self.eq(a.at(), b)
            if isinstance(a, (str,)) and isinstance(b, str):
                from .interp import str_eq
                return str_eq(a, b)
            if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
                return len(a) == len(b) and T.and_(*[self.eq(x, y) for x, y in zip(a, b)])
            return a == b
        return T.eq(a, b)

    same = eq

    def lt(self, a, b): return T.lt(a, b)
    def le(self, a, b): return T.le(a, b)
    def ge(self, a, b): return T.le(b, a)
    def gt(self, a, b): return T.lt(b, a)
    def and_(self, *a): return T.and_(*[T.tb(x) for x in a])
    def or_(self, *a): return T.or_(*[T.tb(x) for x in a])
    def not_(self, a): return T.not_(T.tb(a))
    def implies(self, a, b): return T.implies(a, b)
    def ite(self, c, a, b): return T.ite(T.tb(c), a, b)
    def log(self, x): return T.log(T.to_real(x))
    def exp(self, x): return T.exp(T.to_real(x))
    def sqrt(self, x): return T.sqrt(T.to_real(x))
    def abs(self, x): return T.abs_(x)
    def div(self, a, b): return T.div_nofork(a, b)
    def pow(self, a, b): return T.pow_(a, b)
    def floor(self, x): return T.floor_(x)
    def pi(self): return Term(T.PI, "r")
    def len(self, x): return b_len(x)
    def shape(self, x): return x.shape
    def isarray(self, x): return isinstance(x, SArr)
    def isnumber(self, x): return T.isnum(x)
    def isfloat(self, x): return isinstance(x, Term) and x.k == "r"
    def at(self, a, *i):
        if isinstance(a, SArr):
            return a.at(*i)
        return a[i[0]] if len(i) == 1 else self.at(a[i[0]], *i[1:])
    def copy(self, a): return a.copy()
    def numeral(self, s):
        """the number written as s"""
        if "\ue000" not in s:
            return T.real_const(s)
        if not (s.startswith("\ue000") and s.endswith("\ue001") and s.count("\ue000") == 1):
            raise ValueError(s)
        t, spec = T.PH[int(s[1:-1])]
        if spec not in ("s", "r", "v"):
            raise Unsupported("text of a symbolic number")
        return T.to_real(t)
    def zeros(self, shape): return SArr.make(tuple(shape), lambda *i: T.real_const(0), "r")
    def list(self, xs): return PList(xs)
    def mkarray(self, xs): return SA.from_seq(PList(xs))


# ------------------------------------------------------------------ concrete
POOL = [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 7.0, 0.25, 10.0, 2.5, 100.0, 0.125, 12.75, 5.0, 64.0, 1000.0, 3.25]
TINY = [1e-40, 1e-35, 1e-30, 1e-12, 1e-6, 1e6, 1e9]


class ConWorld(object):
    sym = False

    def __init__(self, rng=None, vals=None, choices=None, tier="quick", size=4):
        self.rng = rng or random.Random(0)
        self.vals, self.pre_choices = vals or {}, choices or {}
        self.tier, self.size = tier, size
        self.used = {}
        self.used_choices = {}
        self.failures = []
        self.nchecks = 0
        self.overridden = []
        self.names = []

    def end(self):
        for m, a, had, v in reversed(self.overridden):
            if had:
                setattr(m, a, v)
            else:
                delattr(m, a)
        self.overridden = []

    def _draw(self, lo, hi, gt, lt, pool):
        r = self.rng
        for _ in range(200):
            c = r.random()
            if pool is not None:
                v = r.choice(list(pool))
                if callable(v):
                    v = v(r)
            elif c < 0.55:
                v = r.choice(POOL) * (1 if (lo is not None and lo >= 0) or (gt is not None and gt >= 0) or r.random() < .6 else -1)
            elif c < 0.62 and (lo is None or lo <= 0):
                v = r.choice(TINY)
            else:
                a = lo if lo is not None else (gt if gt is not None else -20.0)
                b = hi if hi is not None else (lt if lt is not None else a + 40.0)
                v = a + (b - a) * r.randrange(0, 257) / 256.0
            v = float(v)
            if (lo is None or v >= lo) and (hi is None or v <= hi) and (gt is None or v > gt) and (lt is None or v < lt):
                return v
        raise Discard()

    def real(self, name, lo=None, hi=None, gt=None, lt=None, pool=None, int_ok=False):
        if name in self.vals:
            v = float(self.vals[name])
        else:
            v = self._draw(_f(lo), _f(hi), _f(gt), _f(lt), pool)
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None, pool=None, big=None):
        if name in self.vals:
            v = int(self.vals[name])
        elif pool is not None:
            v = self.rng.choice(list(pool))
        else:
            a = lo if lo is not None else -6
            b = hi if hi is not None else max(a, 0) + (big or 12)
            v = self.rng.randint(int(a), int(b))
        self.used[name] = v
        return v

    def dim(self, name, lo=1, hi=None):
        if name in self.vals:
            v = int(self.vals[name])
        else:
            b = hi if hi is not None else max(int(lo), 0) + self.size
            v = self.rng.randint(int(lo), max(int(b), int(lo)))
        self.used[name] = v
        return v

    def bool(self, name):
        v = bool(self.vals[name]) if name in self.vals else self.rng.random() < 0.5
        self.used[name] = v
        return v

    def array(self, name, shape, lo=None, hi=None, gt=None, lt=None, k="r", pool=None):
        import numpy
        lo, hi, gt, lt = [_f(x) for x in (lo, hi, gt, lt)]
        shape = tuple(int(s) for s in shape)
        if name in self.vals:
            a = numpy.array(self.vals[name], dtype={"r": float, "i": int, "b": bool}[k]).reshape(shape)
        else:
            a = numpy.zeros(shape, dtype={"r": float, "i": int, "b": bool}[k])
            sparse = self.rng.random() < 0.25
            for idx in numpy.ndindex(*shape):
                if k == "r":
                    a[idx] = 0.0 if sparse and self.rng.random() < .6 and (lo is None or lo <= 0) and (gt is None or gt < 0) \
                        else self._draw(_f(lo), _f(hi), _f(gt), _f(lt), pool)
                elif k == "i":
                    a[idx] = self.rng.choice(list(pool)) if pool else self.rng.randint(int(lo if lo is not None else -5), int(hi if hi is not None else 9))
                else:
                    a[idx] = self.rng.random() < 0.5
        self.used[name] = a.tolist()
        return a

    def func(self, name, nreal, nint=0, pool=None):
        memo = self.vals.get(name)
        memo = dict((tuple(k), v) for k, v in memo) if memo is not None else {}

        def f(*a):
            a = tuple([float(x) for x in a[:nreal]] + [int(x) for x in a[nreal:]])
            if a not in memo:
                memo[a] = self._draw(None, None, None, None, pool)
                self.used[name] = [[list(k), v] for k, v in memo.items()]
            return memo[a]
        return f

    def build(self, shape, fn):
        import numpy
        a = numpy.zeros(tuple(int(x) for x in shape))
        for i in numpy.ndindex(*a.shape):
            a[i] = fn(*i)
        return a

    def choose(self, name, options):
        if name in self.pre_choices:
            j = self.pre_choices[name]
        else:
            j = self.rng.randrange(len(options))
        self.used_choices[name] = j
        return options[j]

    def require(self, c):
        if not c:
            raise Discard()

    def require_all(self, shape, fn):
        for idx in _indices(shape):
            if not fn(*idx):
                raise Discard()

    def module(self, name):
        from . import loader
        return loader.concrete(name)

    def override(self, mod, attr, v):
        m = self.module(mod)
        self.overridden.append((m, attr, hasattr(m, attr), getattr(m, attr, None)))
        setattr(m, attr, v)

    def root(self, *o):
        pass

    def call(self, f, *a, **k):
        import warnings
        import numpy
        import contextlib
        import io
        try:
            with warnings.catch_warnings(), numpy.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
                warnings.simplefilter("ignore")
                return Outcome(value=f(*a, **k))
        except Exception as ex:
            return Outcome(exc=ex)

    def check(self, name, cond):
        self.nchecks += 1
        if callable(cond):
            cond = cond()
        if not bool(cond):
            self.failures.append(name)

    known_check = check

    def check_all(self, name, shape, fn):
        for idx in _indices(shape):
            self.nchecks += 1
            if not bool(fn(*idx)):
                self.failures.append(name)
                return

    def cover(self, name):
        pass

    def num(self, s):
        return float(s)

    def sum(self, n, fn):
        return math.fsum(float(fn(*i)) for i in _indices(n))

    def eq(self, a, b, tol=None):
        if a is None or b is None:
            return a is b
        if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)):
            return a == b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        try:
            a, b = float(a), float(b)
        except (TypeError, ValueError):
            return a is b
        if a == b:
            return True
        if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
            return False
        return abs(a - b) <= (tol if tol is not None else 1e-7) * max(1.0, abs(a), abs(b)) if abs(a) > 1e-3 or abs(b) > 1e-3 \
            else abs(a - b) <= (tol if tol is not None else 1e-6) * max(abs(a), abs(b)) + 1e-12

    def same(self, a, b):
        """unchanged / the identical value"""
        if a is None or b is None:
            return a is b
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        try:
            return bool(a == b) or (a != a and b != b)
        except ValueError:
            return False

    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b + 1e-9 * max(1.0, abs(b))
    def ge(self, a, b): return a >= b - 1e-9 * max(1.0, abs(b))
    def gt(self, a, b): return a > b
    def and_(self, *a): return all(bool(x) for x in a)
    def or_(self, *a): return any(bool(x) for x in a)
    def not_(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def ite(self, c, a, b): return a if c else b
    def log(self, x): return math.log(x) if x > 0 else float("nan")
    def exp(self, x): return math.exp(x)
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float("nan")
    def abs(self, x): return abs(x)
    def div(self, a, b): return a / b if b != 0 else 0.0
    def pow(self, a, b): return float(a) ** float(b)
    def floor(self, x): return math.floor(x)
    def pi(self): return math.pi
    def len(self, x): return len(x)
    def shape(self, x): return tuple(x.shape)
    def isarray(self, x):
        import numpy
        return isinstance(x, numpy.ndarray)
    def isnumber(self, x):
        import numbers
        return isinstance(x, numbers.Number)
    def isfloat(self, x): return isinstance(x, float)
    def at(self, a, *i):
        for j in i:
            a = a[j]
        return a
    def copy(self, a): return a.copy()
    def zeros(self, shape):
        import numpy
        return numpy.zeros(tuple(shape))
    def numeral(self, s): return float(s)
    def list(self, xs): return list(xs)
    def mkarray(self, xs):
        import numpy
        return numpy.array(xs, dtype=float)


def _f(x):
    return None if x is None else float(x)


def _indices(shape):
    if isinstance(shape, (tuple, list)):
        return itertools.product(*[range(int(d)) for d in shape])
    return ((i,) for i in range(int(shape)))
