"""Symbolic values: Term wraps a z3 expression (kinds 'i' int, 'r' real, 'b' bool).

Python ints and bools stay native whenever they are known; float literals become exact rationals (Term with .v).
Floats are mathematical reals here (an assumption stated in every evidence file).
Division a/b is a*INV(b) with INV(0)=0 (every division also forks on / obliges b != 0, so the convention is never
relied upon).  LOG, EXP, SQRT, POW, GAUSSIAN helpers are uninterpreted with axiom instances added per obligation.
"""
from fractions import Fraction
import itertools
import math
import zlib

import z3


class Unsupported(BaseException):
    """The verifier does not support this construct (never a verdict)."""


class EngineHook(object):
    cur = None          # the running Engine


I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
INV = z3.Function("INV", R, R)
LOG = z3.Function("LOG", R, R)
EXP = z3.Function("EXP", R, R)
SQRT = z3.Function("SQRT", R, R)
POW = z3.Function("POW", R, R, R)
FACT = z3.Function("FACT", R, R)
PI = z3.Real("PI")
E_ = z3.Real("EULER")
_fresh = itertools.count()


def fresh_name(base):
    return "%s!%d" % (base, next(_fresh))


def reset_fresh():
    global _fresh
    _fresh = itertools.count()


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        return Fraction(repr(x))
    raise Unsupported("number %r" % (x,))


def rv(fr):
    return z3.Q(fr.numerator, fr.denominator) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Term(object):
    __slots__ = ("_e", "k", "v")
    __array_priority__ = 1000

    def __init__(self, e, k, v=None):
        self._e, self.k, self.v = e, k, v

    @property
    def e(self):
        if self._e is None:
            self._e = rv(self.v)
        return self._e

    # -- arithmetic
    def __add__(self, o): return _bin("r+", add, self, o, "self, o")
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return _bin("r-", sub, self, o, "self, o")
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return _bin("r*", mul, self, o, "self, o")
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return _bin("r/", div, self, o, "self, o")
    def __rtruediv__(self, o): return div(o, self)
    def __floordiv__(self, o): return floordiv(self, o)
    def __rfloordiv__(self, o): return floordiv(o, self)
    def __mod__(self, o): return mod(self, o)
    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("native % formatting")
        return mod(o, self)
    def __pow__(self, o): return pow_(self, o)
    def __rpow__(self, o): return pow_(o, self)
    def __neg__(self): return neg(self)
    def __pos__(self): return self
    def __abs__(self): return abs_(self)

    def __lt__(self, o): return _bin("r<", lt, self, o, "self, o")
    def __le__(self, o): return _bin("r<=", le, self, o, "self, o")
    def __gt__(self, o): return _bin("r>", lt, self, o, "o, self")
    def __ge__(self, o): return _bin("r>=", le, self, o, "o, self")
    def __eq__(self, o):
        if o is self:
            return True
        if not isnum(o):
            return False
        return eq(self, o)
    def __ne__(self, o):
        if o is self:
            return False
        if not isnum(o):
            return True
        return not_(eq(self, o))
    __hash__ = None

    def __hash__(self):
        return 0

    def __bool__(self):
        if self.k == "b":
            return EngineHook.cur.fork(self.e)
        return truth(not_(eq(self, 0)))

    def __float__(self): raise Unsupported("native float() of a symbolic value")
    def __int__(self): raise Unsupported("native int() of a symbolic value")
    def __index__(self): raise Unsupported("native index of a symbolic value")
    def __str__(self): return placeholder(self, "s")
    def __format__(self, spec): return placeholder(self, "f:" + spec)
    def __repr__(self): return placeholder(self, "r")
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __round__(self, nd=None): return round_(self, nd)

    # a few float / numpy scalar attributes
    @property
    def shape(self): return ()
    @property
    def dtype(self): return "float64" if self.k == "r" else "int64"
    def is_integer(self):
        return True if self.k == "i" else eq(self, to_real(Term(z3.ToInt(self.e), "i")))
    def item(self): return self
    def sum(self): return self

    def ravel(self):
        from .sarr import SArr
        return SArr.make((1,), lambda i: self, self.k)
    def __reduce_ex__(self, p): raise Unsupported("pickling a symbolic value")


_arr_hook = [None, ()]


def _bin(op, f, s, o, order):
    if isinstance(o, _arr_hook[1]):
        return _arr_hook[0](o, s, op)
    if not isnum(o):
        return NotImplemented
    return f(s, o) if order == "self, o" else f(o, s)


# -- placeholders in strings -------------------------------------------------
PH = {}
_PHKEY = {}


def placeholder(t, spec):
    if t.v is not None and spec in ("s", "r"):
        if t.v.denominator == 1:
            return "%d.0" % t.v
        return repr(float(t.v))
    key = (t.e.get_id(), t.k, spec)
    if key not in _PHKEY:
        i = len(PH)
        _PHKEY[key] = i
        PH[i] = (t, spec)
    return "\ue000%d\ue001" % _PHKEY[key]


def isnum(x):
    return isinstance(x, (Term, int, float, Fraction))


def is_inf(x):
    return isinstance(x, float) and (math.isinf(x) or math.isnan(x))


def kind(x):
    if isinstance(x, Term):
        return x.k
    if isinstance(x, bool):
        return "b"
    if isinstance(x, int):
        return "i"
    return "r"


def const(x):
    """Fraction value when x is a known number, else None."""
    if isinstance(x, Term):
        return x.v
    if is_inf(x):
        return None
    return _frac(x)


def real_const(fr):
    return Term(None, "r", Fraction(fr))


def ri(x):
    """z3 Int expression"""
    if isinstance(x, Term):
        if x.k == "i":
            return x.e
        if x.k == "b":
            return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
        if x.v is not None and x.v.denominator == 1:
            return z3.IntVal(int(x.v))
        raise Unsupported("real where an integer is needed")
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if isinstance(x, float) and x == int(x):
        return z3.IntVal(int(x))
    raise Unsupported("integer expected, got %r" % type(x))


_intval = {}


def integer_valued(e, depth=0):
    """real expression whose value is an integer in every interpretation"""
    if e.get_id() in _intval:
        return _intval[e.get_id()][1]
    r = False
    if z3.is_rational_value(e):
        r = e.denominator_as_long() == 1
    elif z3.is_app(e) and depth < 50:
        k = e.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            r = True
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            r = all(integer_valued(c, depth + 1) for c in e.children())
        elif k == z3.Z3_OP_ITE:
            r = all(integer_valued(c, depth + 1) for c in e.children()[1:])
        elif e.decl().name() in SUMS:
            r = integer_valued(SUMS[e.decl().name()].body, depth + 1)
    _intval[e.get_id()] = (e, r)
    return r


def to_real_e(e):
    """ToReal, with ToReal(ToInt(x)) = x for integer-valued x"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_INT and integer_valued(e.arg(0)):
        return e.arg(0)
    return z3.ToReal(e)


def rr(x):
    """z3 Real expression"""
    if isinstance(x, Term):
        if x.k == "r":
            return x.e
        if x.k == "i":
            return to_real_e(x.e)
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if is_inf(x):
        raise Unsupported("arithmetic with inf/nan")
    return rv(_frac(x))


def rb(x):
    if isinstance(x, Term):
        if x.k == "b":
            return x.e
        return rb(not_(eq(x, 0)))
    if isinstance(x, z3.BoolRef):
        return x
    return z3.BoolVal(bool(x))


def wrap_i(e):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return Term(e, "i")


def wrap_b(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Term(e, "b")


def wrap_r(e):
    if z3.is_rational_value(e):
        return real_const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
    return Term(e, "r")


def wrap(e):
    s = e.sort()
    if s == I:
        return wrap_i(e)
    if s == B:
        return wrap_b(z3.simplify(e))
    return wrap_r(e)


def to_real(x):
    if isinstance(x, Term):
        if x.k == "r":
            return x
        return Term(rr(x), "r")
    return real_const(_frac(x))


def _ints(a, b):
    return kind(a) != "r" and kind(b) != "r"


def _fold(a, b):
    ca, cb = const(a), const(b)
    return ca, cb


def _out(fr, ints):
    return int(fr) if ints else real_const(fr)


def _chk(*xs):
    for x in xs:
        if not isnum(x):
            raise TypeError("unsupported operand type(s): %r" % type(x).__name__)


def add(a, b):
    _chk(a, b)
    ints = _ints(a, b)
    ca, cb = _fold(a, b)
    if ca is not None and cb is not None:
        return _out(ca + cb, ints)
    if ints:
        return wrap_i(ri(a) + ri(b))
    if ca == 0:
        return to_real(b)
    if cb == 0:
        return to_real(a)
    return Term(rr(a) + rr(b), "r")


def sub(a, b):
    _chk(a, b)
    ints = _ints(a, b)
    ca, cb = _fold(a, b)
    if ca is not None and cb is not None:
        return _out(ca - cb, ints)
    if ints:
        return wrap_i(ri(a) - ri(b))
    if cb == 0:
        return to_real(a)
    x, y = rr(a), rr(b)
    if x.eq(y):
        return real_const(0)
    return Term(x - y, "r")


def mul(a, b):
    _chk(a, b)
    ints = _ints(a, b)
    ca, cb = _fold(a, b)
    if ca is not None and cb is not None:
        return _out(ca * cb, ints)
    if ca == 0 or cb == 0:
        return _out(Fraction(0), ints)
    if ints:
        return wrap_i(ri(a) * ri(b))
    if ca == 1:
        return to_real(b)
    if cb == 1:
        return to_real(a)
    return wrap_r(mul_e(rr(a), rr(b)))


def neg(a):
    return mul(-1, a)


def inv(b):
    """meadow inverse of a real (normalised for products and constants)"""
    c = const(b)
    if c is not None:
        return real_const(1 / c if c != 0 else 0)
    return wrap_r(inv_e(rr(b)))


def inv_e(e):
    if z3.is_rational_value(e):
        f = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return rv(1 / f if f else Fraction(0))
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            out = None
            for c in e.children():
                x = inv_e(c)
                out = x if out is None else out * x
            return out
        if k == z3.Z3_OP_UMINUS:
            return -inv_e(e.arg(0))
        if e.decl().eq(INV):
            return e.arg(0)
    if not z3.is_const(e):
        p = poly(e)
        if len(p) == 1:
            return unpoly({tuple(sorted((i, -x) for i, x in m)): 1 / c for m, c in p.items()})
        if not p:
            return rv(Fraction(0))
        e = unpoly(p)
    return INV(e)


class SymZeroDivision(ZeroDivisionError):
    _pyvc = True


def div(a, b):
    """a / b: forks on a zero divisor (ZeroDivisionError)."""
    _chk(a, b)
    cb = const(b)
    if cb is None:
        if EngineHook.cur is not None and not _registered_nonzero(b) and truth(eq(b, 0)):
            raise SymZeroDivision("division by zero")
    elif cb == 0:
        raise SymZeroDivision("division by zero")
    return div_nofork(a, b)


def _registered_nonzero(b):
    """a product of registered non-zero atoms"""
    if not NONZERO:
        return False
    p = poly(rr(b))
    return len(p) == 1 and all(i in NONZERO for m in p for i, _ in m)


def div_nofork(a, b):
    ca, cb = const(a), const(b)
    if cb is not None:
        if cb == 0:
            return real_const(0)
        if ca is not None:
            return real_const(ca / cb)
        return mul(to_real(a), real_const(1 / cb))
    return mul(to_real(a), inv(to_real(b)))


def floor_(x):
    """floor as an integer"""
    c = const(x)
    if c is not None:
        return math.floor(c)
    if kind(x) == "i":
        return x
    e = rr(x)
    if integer_valued(e):
        return wrap_i(z3.ToInt(e))
    if z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_MUL):
        p = poly(e)
        if len(p) <= 12:
            ip, fp = {}, {}
            for m, c in p.items():
                if not m:
                    n = math.floor(c)
                    ip[m] = Fraction(n)
                    if c != n:
                        fp[m] = c - n
                elif c.denominator == 1 and all(k > 0 and (_atoms[i].sort() == I or integer_valued(_atoms[i])) for i, k in m):
                    ip[m] = c
                else:
                    fp[m] = c
            if ip and fp:
                f = unpoly(fp)
                n = wrap_i(z3.ToInt(unpoly(ip)))
                if EngineHook.cur is not None and POSITIVE:
                    for lo in (0, -1):
                        if decide(wrap_b(z3.And(f >= lo, f < lo + 1))) is True:
                            return add(n, lo)
                return add(n, wrap_i(z3.ToInt(f)))
            if not fp:
                return wrap_i(z3.ToInt(unpoly(ip)))
    return wrap_i(z3.ToInt(e))


def ceil_(x):
    return neg(floor_(neg(x)))


def trunc_(x):
    c = const(x)
    if c is not None:
        return math.trunc(c)
    if kind(x) != "r":
        return x if kind(x) == "i" else wrap_i(ri(x))
    return ite(le(0, x), floor_(x), ceil_(x))


def rint_(x):
    """round half to even, as an integer"""
    c = const(x)
    if c is not None:
        return round(c)
    if kind(x) == "i":
        return x
    if integer_valued(rr(x)):
        return floor_(x)
    f = floor_(x)
    d = sub(x, f)
    half = Fraction(1, 2)
    return ite(lt(d, half), f, ite(lt(half, d), add(f, 1), ite(eq(mod(f, 2), 0), f, add(f, 1))))


def round_(x, nd=None):
    c = const(x)
    if c is not None:
        r = round(c, nd) if nd is not None else round(c)
        if isinstance(x, int):
            return x
        return r if nd is None else real_const(r)
    if nd is None:
        return rint_(x)
    if kind(x) == "i":
        return x
    p = Fraction(10) ** nd
    return div_nofork(to_real(rint_(mul(x, p))), p)


def _factors(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_MUL:
        return [f for c in e.children() for f in _factors(c)]
    return [e]


def _cancel(a, b):
    """a / b for a product a holding all the factors of b"""
    fa = _factors(z3.simplify(a))
    for x in _factors(z3.simplify(b)):
        for i, y in enumerate(fa):
            if y.eq(x):
                del fa[i]
                break
        else:
            return None
    return z3.IntVal(1) if not fa else fa[0] if len(fa) == 1 else z3.Product(*fa)


def floordiv(a, b):
    _chk(a, b)
    ca, cb = const(a), const(b)
    if cb is None:
        if truth(eq(b, 0)):
            raise SymZeroDivision("integer division or modulo by zero")
    elif cb == 0:
        raise SymZeroDivision("integer division or modulo by zero")
    if ca is not None and cb is not None:
        return _out(Fraction(math.floor(ca / cb)), _ints(a, b))
    if _ints(a, b):
        if cb is not None and cb > 0:
            return wrap_i(ri(a) / ri(b))
        if cb is None:
            q = _cancel(ri(a), ri(b))
            if q is not None:
                return wrap_i(q)        # b is not zero on this path
        if cb is not None:
            return wrap_i((-ri(a)) / (-ri(b)))
        return wrap_i(z3.If(ri(b) > 0, ri(a) / ri(b), (-ri(a)) / (-ri(b))))
    return to_real(floor_(div_nofork(a, b)))


def mod(a, b):
    _chk(a, b)
    if _ints(a, b):
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            return int(ca) % int(cb) if cb else floordiv(a, b)
        if cb is not None and cb > 0:
            return wrap_i(ri(a) % ri(b))
    return sub(a, mul(b, floordiv(a, b)))


def abs_(a):
    c = const(a)
    if c is not None:
        return _out(abs(c), kind(a) != "r")
    if isinstance(a, Term) and a.k == "r" and POSITIVE and _has_mul(a.e):
        f, q = _pos_factor(a.e)
        if f is not None:
            return mul(Term(f, "r"), abs_(wrap_r(q)))
    c = lt(a, 0)
    d = decide(c)
    return ite(c, neg(a), a) if d is None else neg(a) if d else a


def decide(c):
    """truth value of a condition where the path condition settles it (only asked for non-linear ones)"""
    if not isinstance(c, Term):
        return c
    if EngineHook.cur is None or not POSITIVE:
        return None
    return EngineHook.cur.decide(c.e)


def _pos_factor(e):
    """(product of registered positive atoms, quotient) or (None, e)"""
    p = poly(e)
    if not p or () in p or len(p) > 40:
        return None, e
    common = None
    for m in p:
        d = {i: k for i, k in m if i in POSITIVE}
        common = d if common is None else {i: (min(k, d[i]) if k > 0 else max(k, d[i])) for i, k in common.items()
                                           if i in d and (k > 0) == (d[i] > 0)}
        if not common:
            return None, e
    f = tuple(sorted(common.items()))
    g = tuple((i, -k) for i, k in f)
    q = {}
    for m, c in p.items():
        mm = _mono_mul(m, g)
        q[mm] = q.get(mm, 0) + c
    return unmono(f), unpoly({m: c for m, c in q.items() if c})


def pow_(a, b):
    _chk(a, b)
    ca, cb = const(a), const(b)
    if cb is not None and cb.denominator == 1 and abs(cb) <= 64:
        n = int(cb)
        if ca is not None:
            if n < 0:
                if ca == 0:
                    raise SymZeroDivision("0.0 cannot be raised to a negative power")
                return real_const(ca ** n)
            return _out(ca ** n, _ints(a, b))
        out = 1 if _ints(a, b) else real_const(1)
        for _ in range(abs(n)):
            out = mul(out, a)
        if n < 0:
            return div(real_const(1), out)
        return out
    if cb == Fraction(1, 2):
        return sqrt(a)
    if cb == Fraction(-1, 2):
        return div(real_const(1), sqrt(a))
    return Term(POW(rr(a), rr(b)), "r")


def sqrt(a):
    c = const(a)
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return real_const(Fraction(n, d))
    return Term(SQRT(rr(a)), "r")


def log(a):
    if const(a) == 1:
        return real_const(0)
    return Term(LOG(rr(a)), "r")


def exp(a):
    if const(a) == 0:
        return real_const(1)
    return Term(EXP(rr(a)), "r")


# -- comparisons and logic
def _inf_cmp(a, b, op):
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return False
    fa = a if is_inf(a) else 0.0
    fb = b if is_inf(b) else 0.0
    return {"lt": fa < fb, "le": fa <= fb, "eq": fa == fb}[op]


def lt(a, b):
    _chk(a, b)
    if is_inf(a) or is_inf(b):
        return _inf_cmp(a, b, "lt")
    ca, cb = _fold(a, b)
    if ca is not None and cb is not None:
        return ca < cb
    if _ints(a, b):
        return wrap_b(z3.simplify(ri(a) < ri(b)))
    x, y = _cmp_norm(rr(a), rr(b), True)
    if x.eq(y):
        return False
    return wrap_b(z3.simplify(x < y) if z3.is_rational_value(x) else x < y)


def le(a, b):
    _chk(a, b)
    if is_inf(a) or is_inf(b):
        return _inf_cmp(a, b, "le")
    ca, cb = _fold(a, b)
    if ca is not None and cb is not None:
        return ca <= cb
    if _ints(a, b):
        return wrap_b(z3.simplify(ri(a) <= ri(b)))
    x, y = _cmp_norm(rr(a), rr(b), True)
    if x.eq(y):
        return True
    return wrap_b(z3.simplify(x <= y) if z3.is_rational_value(x) else x <= y)


def eq(a, b):
    if is_inf(a) or is_inf(b):
        return _inf_cmp(a, b, "eq")
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        x, y = rb(a), rb(b)
        if x.eq(y):
            return True
        return wrap_b(z3.simplify(x == y))
    ca, cb = _fold(a, b)
    if ca is not None and cb is not None:
        return ca == cb
    if _ints(a, b):
        return wrap_b(z3.simplify(ri(a) == ri(b)))
    x, y = _cmp_norm(rr(a), rr(b), False)
    if x.eq(y):
        return True
    return wrap_b(z3.simplify(x == y) if z3.is_rational_value(x) else x == y)


def not_(a):
    if isinstance(a, bool):
        return not a
    return wrap_b(z3.Not(a.e)) if not z3.is_not(a.e) else wrap_b(a.e.arg(0))


def and_(*xs):
    out = []
    for x in xs:
        if isinstance(x, Term):
            out.append(rb(x))
        elif not x:
            return False
    if not out:
        return True
    return wrap_b(out[0] if len(out) == 1 else z3.And(*out))


def or_(*xs):
    out = []
    for x in xs:
        if isinstance(x, Term):
            out.append(rb(x))
        elif x:
            return True
    if not out:
        return False
    return wrap_b(out[0] if len(out) == 1 else z3.Or(*out))


def implies(a, b):
    return or_(not_(tb(a)), tb(b))


def tb(a):
    """truth value as bool or boolean Term (numbers: != 0)"""
    if isinstance(a, bool):
        return a
    if isinstance(a, Term):
        return a if a.k == "b" else not_(eq(a, 0))
    if type(a).__name__ == "bool_":
        return bool(a)
    if isinstance(a, (int, float)):
        return bool(a)
    return bool(a)


def truth(a):
    return bool(a)


def proves(c):
    """does the path condition imply c?"""
    if not isinstance(c, Term):
        return bool(c)
    return not EngineHook.cur.feasible(z3.Not(c.e))


def ite(c, a, b):
    if isinstance(c, z3.BoolRef):
        c = wrap_b(c)
    if not isinstance(c, Term):
        return a if c else b
    if a is b:
        return a
    if not (isnum(a) and isnum(b)):
        raise Unsupported("ite over %r / %r" % (type(a), type(b)))
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        return wrap_b(z3.simplify(z3.If(c.e, rb(a), rb(b))))
    if ka != "r" and kb != "r":
        x, y = ri(a), ri(b)
        return wrap_i(x if x.eq(y) else z3.If(c.e, x, y))
    if is_inf(a) or is_inf(b):
        raise Unsupported("inf in a merged value")
    x, y = rr(a), rr(b)
    if x.eq(y):
        return to_real(a)
    return Term(z3.If(c.e, x, y), "r")


def min_(a, b):
    c = le(a, b)
    d = decide(c)
    return ite(c, a, b) if d is None else a if d else b


def max_(a, b):
    c = le(b, a)
    d = decide(c)
    return ite(c, a, b) if d is None else a if d else b


# ------------------------------------------------------------------ polynomials (for sums and factor extraction)
_atoms = {}


def poly(e):
    """z3 real (or int) expr -> {monomial: coef}; monomial = sorted tuple of (atom id, exponent != 0); INV is exponent -1
    and never cancels against +1 (kept as separate atom)."""
    key = (e.get_id(), _SIG[0])
    if key in _polymemo:
        return dict(_polymemo[key][1])
    out = {}
    _poly(e, Fraction(1), (), out)
    out = {m: c for m, c in out.items() if c != 0}
    if len(_polymemo) > 200000:
        _polymemo.clear()
    _polymemo[key] = (e, out)
    return dict(out)


_polymemo = {}
_SIG = [frozenset()]


NONZERO = {}     # id -> real expression assumed non-zero by every path condition of the current harness run


def register_nonzero(e):
    """e (real z3 expression): x*INV(x) = 1 may be used everywhere"""
    NONZERO[e.get_id()] = e
    _SIG[0] = frozenset(NONZERO)
    _atoms[e.get_id()] = e


POSITIVE = {}


def register_positive(e):
    register_nonzero(e)
    POSITIVE[e.get_id()] = e


def _cmp_norm(x, y, positive):
    """(x', y') with x' - y' = (x - y) / (a product of registered positive, or for equations non-zero, atoms)"""
    reg = POSITIVE if positive else NONZERO
    if not reg or not (_has_mul(x) or _has_mul(y)):
        return x, y
    p = poly(x - y)
    if not p:
        return rv(Fraction(0)), rv(Fraction(0))
    if len(p) > 40 or () in p:
        if () in p and len(p) == 1:
            return unpoly(p), rv(Fraction(0))
        return x, y
    common = None
    for m in p:
        d = {i: k for i, k in m if i in reg}
        if common is None:
            common = d
        else:
            common = {i: (min(k, d[i]) if k > 0 else max(k, d[i])) for i, k in common.items()
                      if i in d and (k > 0) == (d[i] > 0)}
        if not common:
            return x, y
    f = tuple((i, -k) for i, k in common.items())
    q = {}
    for m, c in p.items():
        mm = _mono_mul(m, f)
        q[mm] = q.get(mm, 0) + c
    return unpoly({m: c for m, c in q.items() if c}), rv(Fraction(0))


_hasmul = {}


def _has_mul(e):
    i = e.get_id()
    if i in _hasmul:
        return _hasmul[i][1]
    r = False
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            r = sum(1 for c in e.children() if not z3.is_rational_value(c)) > 1 or any(_has_mul(c) for c in e.children())
        elif e.decl().eq(INV):
            r = True
        elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            r = any(_has_mul(c) for c in e.children())
    _hasmul[i] = (e, r)
    return r


def _mono_mul(m1, m2):
    d = {}
    for i, x in m1 + m2:
        key = (i, None) if i in NONZERO else (i, x > 0)
        d[key] = d.get(key, 0) + x
    return tuple(sorted((i, x) for (i, _), x in d.items() if x))


_hasinv = {}


def _has_inv(e):
    """an INV factor at polynomial level"""
    i = e.get_id()
    if i in _hasinv:
        return _hasinv[i][1]
    r = False
    if z3.is_app(e):
        if e.decl().eq(INV):
            r = True
        elif e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
            r = any(_has_inv(c) for c in e.children())
    _hasinv[i] = (e, r)
    return r


def mul_e(x, y):
    """product of real expressions, cancelling x*INV(x) of registered non-zero atoms"""
    if NONZERO and (_has_inv(x) or _has_inv(y)):
        p, q = poly(x), poly(y)
        if len(p) * len(q) <= 64:
            r = _p_mul(p, q)
            n = max([sum(abs(k) for _, k in m) for m in r] or [0])
            full = max([sum(abs(k) for _, k in m) for m in p] or [0]) + max([sum(abs(k) for _, k in m) for m in q] or [0])
            if n < full or len(r) < len(p) * len(q):
                return unpoly({m: c for m, c in r.items() if c != 0})
    return x * y


def _p_mul(p, q):
    out = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            out[m] = out.get(m, 0) + c1 * c2
    return out


def _poly(e, c, m, out):
    """adds c*m*e to out"""
    if z3.is_rational_value(e) or z3.is_int_value(e):
        f = Fraction(e.as_fraction()) if z3.is_rational_value(e) else Fraction(e.as_long())
        out[m] = out.get(m, 0) + c * f
        return
    k = e.decl().kind() if z3.is_app(e) else None
    if k == z3.Z3_OP_ADD:
        for x in e.children():
            _poly(x, c, m, out)
    elif k == z3.Z3_OP_SUB:
        ch = e.children()
        _poly(ch[0], c, m, out)
        for x in ch[1:]:
            _poly(x, -c, m, out)
    elif k == z3.Z3_OP_UMINUS:
        _poly(e.arg(0), -c, m, out)
    elif k == z3.Z3_OP_MUL:
        ps = [poly(x) for x in e.children()]
        acc = {m: c}
        for p in ps:
            acc = _p_mul(acc, p)
        for mm, cc in acc.items():
            out[mm] = out.get(mm, 0) + cc
    elif k == z3.Z3_OP_DIV and z3.is_rational_value(e.arg(1)) and e.arg(1).as_fraction() != 0:
        _poly(e.arg(0), c / Fraction(e.arg(1).as_fraction()), m, out)
    elif k == z3.Z3_OP_TO_REAL and z3.is_app(e.arg(0)) and e.arg(0).decl().kind() in (
            z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS, z3.Z3_OP_ANUM, z3.Z3_OP_TO_INT):
        x = e.arg(0)
        kk = x.decl().kind()
        if kk == z3.Z3_OP_TO_INT:
            if integer_valued(x.arg(0)):
                _poly(x.arg(0), c, m, out)
            else:
                i = e.get_id()
                _atoms[i] = e
                mm = _mono_mul(m, ((i, 1),))
                out[mm] = out.get(mm, 0) + c
            return
        if kk == z3.Z3_OP_ANUM:
            _poly(z3.RealVal(x.as_long()), c, m, out)
            return
        ch = [z3.ToReal(y) for y in x.children()]
        if kk == z3.Z3_OP_ADD:
            for y in ch:
                _poly(y, c, m, out)
        elif kk == z3.Z3_OP_SUB:
            _poly(ch[0], c, m, out)
            for y in ch[1:]:
                _poly(y, -c, m, out)
        elif kk == z3.Z3_OP_UMINUS:
            _poly(ch[0], -c, m, out)
        else:
            acc = {m: c}
            for y in ch:
                acc = _p_mul(acc, poly(y))
            for mm, cc in acc.items():
                out[mm] = out.get(mm, 0) + cc
    else:
        x = 1
        if z3.is_app(e) and e.decl().eq(INV):
            e, x = e.arg(0), -1
        i = e.get_id()
        _atoms[i] = e
        mm = _mono_mul(m, ((i, x),))
        out[mm] = out.get(mm, 0) + c


def unmono(m, c=Fraction(1)):
    out = None
    for i, x in m:
        a = _atoms[i]
        if a.sort() == I:
            a = z3.ToReal(a)
        if x < 0:
            a = INV(a)
        for _ in range(abs(x)):
            out = a if out is None else out * a
    if out is None:
        return rv(c)
    if c == 1:
        return out
    return rv(c) * out


def unpoly(p):
    items = sorted(p.items())
    if not items:
        return rv(Fraction(0))
    out = None
    for m, c in items:
        x = unmono(m, c)
        out = x if out is None else out + x
    return out


def mentions(e, consts):
    """does expression e contain one of the (0-ary) constants / function decls in consts (set of names)?"""
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = x.decl().name()
                if nm in consts or nm in SUMS and not consts.isdisjoint(hidden(nm)):
                    return True
            st.extend(x.children())
        elif z3.is_quantifier(x):
            st.append(x.body())
    return False


_HIDDEN = {}


def hidden(nm):
    """names of the functions in the body of a sum (they do not show in its applications)"""
    if nm not in _HIDDEN:
        out = set()
        info = SUMS[nm]
        for e in list(info.bounds) + [info.body]:
            for s in subterms(e):
                if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.num_args():
                    out.add(s.decl().name())
                    if s.decl().name() in SUMS:
                        out |= hidden(s.decl().name())
        _HIDDEN[nm] = frozenset(out)
    return _HIDDEN[nm]


def rebuild_sum(app, f):
    """the sum with f applied to its bounds and body"""
    bounds, vs, body = sum_instance(app)
    return _canon_sum([z3.simplify(f(b)) for b in bounds], vs, f(body))


def subterms(e, seen=None, out=None):
    seen = set() if seen is None else seen
    out = [] if out is None else out
    st = [e]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
        if z3.is_app(x):
            st.extend(x.children())
        elif z3.is_quantifier(x):
            pass
    return out


def free_consts(e):
    return [x for x in subterms(e) if z3.is_const(x) and z3.is_app(x) and
            x.decl().kind() == z3.Z3_OP_UNINTERPRETED]


# ------------------------------------------------------------------ finite sums
class SumInfo(object):
    __slots__ = ("decl", "params", "bounds", "vars", "body")


SUMS = {}        # decl name -> SumInfo
_SUMKEY = {}
_BV = [z3.Int("bv!%d" % i) for i in range(8)]


def _abstract(exprs, names):
    """replaces what does not depend on the bound variables `names` (free constants and applications of uninterpreted
    functions) by parameters, numbered in order of occurrence: (expressions, [replaced])"""
    memo, order = {}, []
    free = {}

    def dep(e):
        i = e.get_id()
        if i not in free:
            free[i] = z3.is_app(e) and (e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not e.num_args() and
                                        e.decl().name() in names or any(dep(c) for c in e.children()))
        return free[i]

    def walk(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and not (not e.num_args() and
                                                                               e.decl().name() in names) and not dep(e):
            r = z3.Const("pa!%d!%s" % (len(order), e.sort()), e.sort())
            order.append(e)
        elif z3.is_app(e) and e.num_args():
            cs = [walk(c) for c in e.children()]
            r = e.decl()(*cs) if any(not x.eq(y) for x, y in zip(cs, e.children())) else e
        else:
            r = e
        memo[i] = r
        return r
    return [walk(e) for e in exprs], order


_AC = (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR)


def _ac_sorted(e, names):
    """arguments of commutative operators in an order that does not depend on what will become a parameter"""
    memo = {}

    def walk(e):        # (expression, key, depends on a bound variable)
        i = e.get_id()
        if i in memo:
            return memo[i]
        if not z3.is_app(e):
            r = (e, zlib.crc32(e.sexpr().encode()), True)
        elif not e.num_args():
            nm = e.decl().name()
            un = e.decl().kind() == z3.Z3_OP_UNINTERPRETED
            dep = un and nm in names
            r = (e, zlib.crc32((nm if dep else "?%s" % e.sort() if un else e.sexpr()).encode()), dep)
        else:
            cs = [walk(c) for c in e.children()]
            k = e.decl().kind()
            dep = any(c[2] for c in cs)
            if k == z3.Z3_OP_UNINTERPRETED and not dep:
                r = (e, zlib.crc32(b"?%s" % str(e.sort()).encode()), False)
            else:
                if k in _AC and dep:
                    cs = sorted(cs, key=lambda c: c[1])
                new = [c[0] for c in cs]
                x = e.decl()(*new) if any(not a.eq(b) for a, b in zip(new, e.children())) else e
                r = (x, zlib.crc32(("%s(%s)" % (e.decl().name(), ",".join(str(c[1]) for c in cs))).encode()), dep)
        memo[i] = r
        memo[("k", i)] = e
        return r
    return walk(e)[0]


def _canon_sum(bounds, vars_, body):
    """hash-consed application SUM_id(what the sum depends on)"""
    import itertools as it
    n = len(vars_)
    best = None
    perms = it.permutations(range(n)) if n <= 4 else [tuple(range(n))]
    names = {v.decl().name() for v in _BV[:n]}
    for p in perms:
        b2 = _ac_sorted(z3.substitute(body, *[(vars_[p[i]], _BV[i]) for i in range(n)]), names)
        bo = [bounds[p[i]] for i in range(n)]
        ab, order = _abstract(bo + [b2], names)
        key = tuple(x.sexpr() for x in ab)
        if best is None or key < best[0]:
            best = (key, ab[:-1], ab[-1], order)
    key, bo, b2, order = best
    if key not in _SUMKEY:
        info = SumInfo()
        info.params = [z3.Const("pa!%d!%s" % (i, e.sort()), e.sort()) for i, e in enumerate(order)]
        info.bounds, info.vars, info.body = bo, _BV[:n], b2
        nm = "SUM!%d" % len(SUMS)
        info.decl = z3.Function(nm, *([c.sort() for c in order] + [R])) if order else z3.Const(nm, R).decl()
        SUMS[nm] = info
        _SUMKEY[key] = info
    info = _SUMKEY[key]
    return info.decl(*order)


def sum_instance(app):
    """(bounds, vars, body) of a SUM application"""
    info = SUMS[app.decl().name()]
    sub_ = list(zip(info.params, app.children()))
    # simultaneous substitution; bound variables are renamed apart first
    nv = [z3.Int(fresh_name("sv")) for _ in info.vars]
    body = z3.substitute(info.body, *zip(info.vars, nv))
    if sub_:
        body = z3.substitute(body, *sub_)
        bounds = [z3.substitute(b, *sub_) for b in info.bounds]
    else:
        bounds = list(info.bounds)
    return bounds, nv, body


def is_sum(e):
    return z3.is_app(e) and e.decl().name() in SUMS


def _solve_eq(cond, var):
    """cond contains a conjunct that pins var to a var-free term: returns (t, rest) or None"""
    cs = cond.children() if z3.is_and(cond) else [cond]
    nm = {var.decl().name()}
    for i, c in enumerate(cs):
        t = _eq_solve1(c, var, nm)
        if t is not None:
            return t
    return None


def _eq_solve1(c, var, nm):
    if z3.is_eq(c) and c.arg(0).sort() == I:
        d = c.arg(0) - c.arg(1)
        p = poly(d)
        vm = None
        for m, k in p.items():
            if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].eq(var):
                vm = (m, k)
            elif any(mentions(_atoms[i], nm) for i, _ in m):
                return None
        if vm is None or abs(vm[1]) != 1:
            return None
        rest = {m: -k / vm[1] for m, k in p.items() if m != vm[0]}
        if any(k.denominator != 1 for k in rest.values()):
            return None
        out = z3.IntVal(0)
        for m, k in sorted(rest.items()):
            x = z3.IntVal(int(k))
            for i, ex in m:
                for _ in range(ex):
                    x = x * _atoms[i]
            out = out + x
        return z3.simplify(out)
    return None


def _in_range(q, var, n):
    """is q one of the facts 0 <= var < n (as the simplifier writes them)?"""
    key = (q.get_id(), var.get_id(), n.get_id())
    if key not in _RANGE:
        fs = [z3.simplify(f).sexpr() for f in (var >= 0, var < n, z3.IntVal(0) <= var, z3.Not(n <= var))]
        _RANGE[key] = (z3.simplify(q).sexpr() in fs, q, var, n)
    return _RANGE[key][0]


_RANGE = {}


def sum_e(n, body, var):
    """sum_{0<=var<n} body, all z3 expressions"""
    n = z3.simplify(n)
    while z3.is_app(n) and n.decl().kind() == z3.Z3_OP_ITE:     # max(0, x): the sum over range(x) is the same
        c, a, b = n.children()
        if z3.is_int_value(a) and a.as_long() <= 0 and z3.simplify(c).sexpr() in (
                z3.simplify(b <= 0).sexpr(), z3.simplify(z3.IntVal(0) >= b).sexpr()):
            n = b
        elif z3.is_int_value(b) and b.as_long() <= 0 and z3.simplify(c).sexpr() in (
                z3.simplify(a >= 0).sexpr(), z3.simplify(a > 0).sexpr(), z3.simplify(z3.IntVal(0) <= a).sexpr(),
                z3.simplify(z3.IntVal(0) < a).sexpr()):
            n = a
        else:
            break
    nm = {var.decl().name()}
    if z3.is_int_value(n) and n.as_long() <= 12:
        out = rv(Fraction(0))
        for i in range(max(0, n.as_long())):
            out = out + z3.substitute(body, (var, z3.IntVal(i)))
        return unpoly(poly(out)) if n.as_long() > 0 else out
    if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ITE and not mentions(body, nm):
        pass
    p = poly(body)
    total = None
    rest = {}
    for m, c in p.items():
        dep = tuple((i, x) for i, x in m if mentions(_atoms[i], nm))
        free = tuple((i, x) for i, x in m if not mentions(_atoms[i], nm))
        part = None
        if not dep:
            part = unmono(free, c) * z3.ToReal(z3.If(n > 0, n, z3.IntVal(0)))
        else:
            # pick rule
            for j, (i, x) in enumerate(dep):
                a = _atoms[i]
                if x == 1 and a.decl().kind() == z3.Z3_OP_ITE:
                    cond, tv, fv = a.children()
                    qs = [q for q in (cond.children() if z3.is_and(cond) else [cond]) if not _in_range(q, var, n)]
                    if not any(mentions(q, nm) for q in qs):      # the same choice for every index
                        o = unmono(dep[:j] + dep[j + 1:]) if len(dep) > 1 else None
                        tv, fv = [sum_e(n, x if o is None else o * x, var) for x in (tv, fv)]
                        part = unmono(free, c) * (z3.If(z3.And(*qs) if len(qs) > 1 else qs[0], tv, fv) if qs else tv)
                        break
                    if z3.is_rational_value(fv) and fv.as_fraction() == 0:
                        t = _solve_eq(cond, var)
                        if t is not None:
                            others = unmono(dep[:j] + dep[j + 1:])
                            val = z3.substitute(others * tv, (var, t))
                            g = z3.simplify(z3.And(t >= 0, t < n, z3.substitute(cond, (var, t))))
                            part = unmono(free, c) * (val if z3.is_true(g) else z3.If(g, val, rv(Fraction(0))))
                            break
                        out, inn, dropped = [], [], False
                        for q in (cond.children() if z3.is_and(cond) else [cond]):
                            if not mentions(q, nm):
                                out.append(q)
                            elif _in_range(q, var, n):
                                dropped = True
                            else:
                                inn.append(q)
                        if out or dropped:      # guards that do not depend on the index, or that its range implies
                            b2 = z3.If(z3.And(*inn) if len(inn) > 1 else inn[0], tv, fv) if inn else tv
                            b2 = sum_e(n, unmono(dep[:j] + dep[j + 1:]) * b2 if len(dep) > 1 else b2, var)
                            part = unmono(free, c) * (z3.If(z3.And(*out) if len(out) > 1 else out[0], b2,
                                                            rv(Fraction(0))) if out else b2)
                            break
        if part is not None:
            total = part if total is None else total + part
        else:
            rest[m] = c
    if rest:
        # common var-free factor
        frees = []
        for m in rest:
            frees.append(tuple((i, x) for i, x in m if not mentions(_atoms[i], nm)))
        if len(set(frees)) == 1:
            f = frees[0]
            cs = set(rest.values())
            c0 = cs.pop() if len(cs) == 1 else Fraction(1)
            inner = {tuple((i, x) for i, x in m if mentions(_atoms[i], nm)): c / c0 for m, c in rest.items()}
            part = unmono(f, c0) * _raw_sum(n, unpoly(inner), var)
        else:
            part = _raw_sum(n, unpoly(rest), var)
        total = part if total is None else total + part
    return total if total is not None else rv(Fraction(0))


def _raw_sum(n, body, var):
    if is_sum(body):
        bounds, vs, b = sum_instance(body)
        nm = {var.decl().name()}
        if not any(mentions(x, nm) for x in bounds):
            return _canon_sum([n] + bounds, [var] + vs, b)
    return _canon_sum([n], [var], body)


def mk_sum(lo, hi, f):
    """sum_{lo<=k<hi} f(k) as a real Term"""
    n = sub(hi, lo)
    if isinstance(n, int):
        if n <= 12:
            out = real_const(0)
            for i in range(n):
                out = add(out, f(add(lo, i)))
            return to_real(out)
    var = z3.Int(fresh_name("k"))
    eng = EngineHook.cur
    k = Term(var, "i")
    if eng is not None:
        body = eng.under_binder(var, n, lambda: f(add(lo, k)))
    else:
        body = f(add(lo, k))
    return wrap_r(sum_e(ri(n), rr(body), var))
