"""AST interpreter for the (mechanically translated) sources of /repo, over native Python objects and symbolic Terms."""
import ast
import warnings
import builtins
import copy
import operator
import os
import itertools
import sys
import types
from . import terms as T
from . import loader
from .terms import Term, Unsupported
from .sarr import SArr, legit
from . import sarr as SA
from .loops import Lazy

HERE = os.path.dirname(os.path.abspath(__file__))


# ------------------------------------------------------------------ control flow
class BreakX(BaseException):
    pass


class ContinueX(BaseException):
    pass


class ReturnX(BaseException):
    def __init__(self, v):
        self.v = v


class LeaveGen(BaseException):
    """the body of a loop over a generator left the loop (what: the BreakX / ReturnX)"""
    def __init__(self, gen, what):
        self.gen, self.what = gen, what


class Opaque(object):
    """a value the loop abstraction lost; any use is Unsupported"""
    def __init__(self, why):
        self.why = why


def mark(ex):
    """is this exception one the program would raise (and not a limitation of the verifier)?"""
    if getattr(ex, "_pyvc", False):
        return
    tb = ex.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is None:
        return
    co = last.tb_frame.f_code
    if co.co_filename.startswith(HERE) and co.co_name not in ("native",) and not co.co_filename.endswith("/stubs.py"):
        return
    try:
        ex._pyvc = True
    except Exception:
        pass


def native(f, *a, **k):
    try:
        return f(*a, **k)
    except Exception as ex:
        mark(ex)
        raise


def ensure_legit(ex):
    if isinstance(ex, RecursionError):
        raise Unsupported("recursion limit")
    if not getattr(ex, "_pyvc", False):
        import traceback
        raise Unsupported("internal: %s" % "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:]))


# ------------------------------------------------------------------ lists that may become symbolic
class PList(list):
    """list; segs is None, or [('items', [..]) | ('gen', n, fn)] when it has a symbolic number of elements"""
    segs = None

    def sym_len(self):
        n = 0
        for s in self.segs:
            n = T.add(n, len(s[1]) if s[0] == "items" else s[1])
        return n

    def sym_get(self, i):
        out = None
        lo = 0
        parts = []
        for s in self.segs:
            ln = len(s[1]) if s[0] == "items" else s[1]
            parts.append((lo, ln, s))
            lo = T.add(lo, ln)
        for lo, ln, s in reversed(parts):
            off = T.sub(i, lo)
            if s[0] == "items":
                if not s[1]:
                    continue
                v = SA.pick(s[1], off, lambda x: x) if not isinstance(off, int) or 0 <= off < len(s[1]) else s[1][-1]
            else:
                v = s[2](off)
            out = v if out is None else T.ite(T.lt(i, T.add(lo, ln)), v, out)
        if out is None:
            raise Unsupported("element of an empty list")
        return out

    def elem_kind(self):
        ks = []
        for s in self.segs:
            if s[0] == "items":
                ks += [T.kind(x) for x in s[1]]
            else:
                ks.append(T.kind(s[2](0)))
        return SA.join_kind(ks)

    def _c(self):
        if self.segs is not None:
            raise Unsupported("list operation on a list of symbolic length")

    def append(self, x):
        if self.segs is None:
            list.append(self, x)
        elif self.segs and self.segs[-1][0] == "items":
            self.segs = self.segs[:-1] + [("items", self.segs[-1][1] + [x])]
        else:
            self.segs = self.segs + [("items", [x])]

    def extend(self, o):
        if self.segs is None and not (isinstance(o, PList) and o.segs is not None):
            list.extend(self, o)
            return
        a = self.segs if self.segs is not None else [("items", list(self))]
        b = o.segs if isinstance(o, PList) and o.segs is not None else [("items", list(o))]
        list.clear(self)
        self.segs = list(a) + list(b)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = PList()
        r.extend(self)
        r.extend(o)
        return r

    def __len__(self):
        self._c()
        return list.__len__(self)

    def __iter__(self):
        self._c()
        return list.__iter__(self)

    def __getitem__(self, i):
        if self.segs is not None:
            if isinstance(i, slice):
                raise Unsupported("slice of a list of symbolic length")
            n = self.sym_len()
            return self.sym_get(SA.norm_index(i, n))
        if isinstance(i, slice):
            return PList(list.__getitem__(self, conc_slice(i, list.__len__(self))))
        if isinstance(i, Term):
            if i.k != "i":
                raise legit(TypeError("list indices must be integers or slices, not float"))
            return index_seq(self, i)
        return native(list.__getitem__, self, i)

    def __setitem__(self, i, v):
        self._c()
        if isinstance(i, Term):
            if i.k != "i":
                raise legit(TypeError("list indices must be integers or slices, not float"))
            i = conc_index(i, list.__len__(self))
        native(list.__setitem__, self, i, v)

    def __eq__(self, o):
        self._c()
        return list.__eq__(self, o)

    def __contains__(self, x):
        self._c()
        return list.__contains__(self, x)

    __hash__ = None

    def __mul__(self, n):
        self._c()
        if isinstance(n, Term):
            raise Unsupported("list * symbolic")
        return PList(list.__mul__(self, n))

    __rmul__ = __mul__

    def index(self, *a):
        self._c()
        return native(list.index, self, *a)

    def pop(self, *a):
        self._c()
        return native(list.pop, self, *a)

    def insert(self, i, x):
        self._c()
        list.insert(self, i, x)

    def sort(self, key=None, reverse=False):
        self._c()
        list.sort(self, key=key, reverse=reverse)

    def reverse(self):
        self._c()
        list.reverse(self)

    def count(self, x):
        self._c()
        return list.count(self, x)

    def remove(self, x):
        self._c()
        native(list.remove, self, x)

    def copy(self):
        r = PList(list(self) if self.segs is None else [])
        r.segs = self.segs
        return r

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        r = PList()
        memo[id(self)] = r
        if self.segs is not None:
            r.segs = list(self.segs)
        else:
            for x in list.__iter__(self):
                list.append(r, copy.deepcopy(x, memo))
        return r

    def __reduce_ex__(self, p):
        raise Unsupported("pickle")


def conc_index(i, n):
    """concrete value of a symbolic index into a sequence of known length (forks)"""
    for j in range(n):
        if T.truth(T.eq(i, j)):
            return j
    for j in range(1, n + 1):
        if T.truth(T.eq(i, -j)):
            return n - j
    raise legit(IndexError("list index out of range"))


def index_seq(seq, i):
    return list.__getitem__(seq, conc_index(i, len(seq))) if isinstance(seq, list) else seq[conc_index(i, len(seq))]


def conc_slice(s, n):
    def c(x):
        if isinstance(x, Term):
            if x.k != "i":
                raise legit(TypeError("slice indices must be integers or None or have an __index__ method"))
            for j in range(-n, n + 1):
                if T.truth(T.eq(x, j)):
                    return j
            return n if T.truth(T.lt(n, x)) else -n - 1
        return x
    return slice(c(s.start), c(s.stop), c(s.step))


class SRange(object):
    """range with symbolic bounds (step known)"""
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def length(self):
        if self.step == 1:
            return T.max_(0, T.sub(self.hi, self.lo))
        if self.step > 0:
            return T.max_(0, T.floordiv(T.add(T.sub(self.hi, self.lo), self.step - 1), self.step))
        return T.max_(0, T.floordiv(T.add(T.sub(self.lo, self.hi), -self.step - 1), -self.step))

    def get(self, k):
        return T.add(self.lo, T.mul(self.step, k))

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic range")

    def __len__(self):
        raise Unsupported("len of symbolic range")


class SIter(object):
    """symbolic iterable: length and element function"""
    def __init__(self, n, get):
        self.n, self.get_ = n, get

    def length(self):
        return self.n

    def get(self, k):
        return self.get_(k)

    def __iter__(self):
        raise Unsupported("native iteration over a symbolic iterable")

    def __len__(self):
        raise Unsupported("len of a symbolic iterable")


def sym_iter(x):
    """(n, get) when x has a symbolic number of elements, else None"""
    if isinstance(x, (SRange, SIter)):
        return x.length(), x.get
    if isinstance(x, SArr):
        if x.ndim and isinstance(x.shape[0], Term):
            return x.shape[0], (lambda k: x[(k,)] if x.ndim > 1 else x.at(k))
        return None
    if isinstance(x, PList) and x.segs is not None:
        return x.sym_len(), x.sym_get
    if hasattr(x, "_pyvc_iter"):
        return x._pyvc_iter()
    return None


def conc_len(n):
    return isinstance(n, int)


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, SArr):
        if not x.shape:
            raise legit(TypeError("len() of unsized object"))
        return x.shape[0]
    if isinstance(x, PList) and x.segs is not None:
        return x.sym_len()
    if isinstance(x, (SRange, SIter)):
        return x.length()
    if isinstance(x, Term):
        raise legit(TypeError("object of type 'float' has no len()"))
    if hasattr(x, "_pyvc_len"):
        return x.length()
    if hasattr(x, "_pyvc_iter"):
        return x._pyvc_iter()[0]
    if isinstance(x, str) and "\ue000" in x:
        raise Unsupported("length of a string with a symbolic number")
    return native(len, x)


def b_range(*a):
    if not any(isinstance(x, Term) for x in a):
        return native(range, *a)
    for x in a:
        if isinstance(x, Term) and x.k == "r":
            raise legit(TypeError("'float' object cannot be interpreted as an integer"))
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if not isinstance(step, int):
        raise Unsupported("range with symbolic step")
    r = SRange(lo, hi, step)
    n = r.length()
    if isinstance(n, int):
        return PList([r.get(i) for i in range(n)])
    return r


def b_float(x=0):
    if isinstance(x, Term):
        return T.to_real(x)
    if isinstance(x, SArr):
        return T.to_real(x.item())
    if isinstance(x, str):
        if "\ue000" in x:
            s = x.strip()
            if s.startswith("\ue000") and s.endswith("\ue001") and s.count("\ue000") == 1:
                t, spec = T.PH[int(s[1:-1])]
                if spec in ("s", "r", "f:"):
                    return T.to_real(t)
            raise Unsupported("float of a string with a symbolic number")
        v = native(float, x)
    else:
        v = native(float, x)
    return v if T.is_inf(v) else T.to_real(v)


def b_int(x=0, *a):
    if isinstance(x, Term):
        return T.trunc_(x)
    if isinstance(x, SArr):
        return T.trunc_(x.item())
    if isinstance(x, str) and "\ue000" in x:
        s = x.strip()
        if s.startswith("\ue000") and s.endswith("\ue001") and s.count("\ue000") == 1:
            t, spec = T.PH[int(s[1:-1])]
            if t.k == "i" and spec in ("s", "r", "f:", "f:d"):
                return t
        raise Unsupported("int of a string with a symbolic number")
    return native(int, x, *a)


def b_bool(x=False):
    if isinstance(x, Term):
        return T.tb(x)
    return native(bool, x)


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat = []
    for y in ts:
        flat.extend(y if isinstance(y, tuple) else [y])
    if isinstance(x, Opaque):
        raise Unsupported("lost value: " + x.why)
    if isinstance(x, Term):
        return any(term_isinstance(x, y) for y in flat)
    for y in flat:
        if isinstance(y, NumType):
            if y.accepts(x):
                return True
        elif native(isinstance, x, y):
            return True
    return False


class NumType(object):
    """numpy scalar type stand-in; calling converts"""
    def __init__(self, name, ks, conv):
        self.__name__, self.ks, self.conv = name, ks, conv

    def accepts(self, x):
        return False        # native Python numbers are not numpy scalars

    def __call__(self, x=0):
        return self.conv(x)

    def __repr__(self):
        return "<class 'numpy.%s'>" % self.__name__


def term_isinstance(x, t):
    import numbers
    if isinstance(t, NumType):
        raise Unsupported("isinstance of a symbolic number with numpy scalar types")
    if t is float:
        return x.k == "r"
    if t is int:
        return x.k in ("i", "b")
    if t is bool:
        return x.k == "b"
    if t is object:
        return True
    if t in (numbers.Number, numbers.Real, numbers.Complex):
        return True
    if t in (numbers.Integral, numbers.Rational):
        return x.k != "r"
    return False


def b_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Term):
            return {"r": float, "i": int, "b": bool}[x.k]
        if isinstance(x, PList):
            return list
        return type(x)
    return native(type, *a)


def b_sum(x, start=0):
    s = sym_iter(x)
    if s is None:
        for v in x:
            start = native(operator.add, start, v)
        return start
    n, get = s
    return T.add(start, _sum_kind(n, get))


def _sum_kind(n, get):
    import z3
    k = T.kind(get(Term(z3.Int(T.fresh_name("probe")), "i")))
    r = T.mk_sum(0, n, get)
    if k != "r":
        return T.wrap_i(z3.ToInt(r.e))
    return r


def b_minmax(which):
    def f(*a, **k):
        xs = a[0] if len(a) == 1 else a
        if isinstance(xs, (SArr,)) or sym_iter(xs) is not None:
            if k:
                raise Unsupported("min/max keywords")
            return SA.minmax(SA.asarray(xs if isinstance(xs, (SArr, PList)) else _no(xs)), which)
        if k:
            return native(getattr(builtins, which), *a, **k)
        xs = list(xs)
        if not xs:
            raise legit(ValueError("%s() arg is an empty sequence" % which))
        if all(T.isnum(x) for x in xs) and any(isinstance(x, Term) for x in xs) and not any(T.is_inf(x) for x in xs):
            out = xs[0]
            for x in xs[1:]:
                if T.truth(T.lt(x, out) if which == "min" else T.lt(out, x)):
                    out = x
            return out
        return native(getattr(builtins, which), xs)
    return f


def _no(x):
    raise Unsupported("min/max of %r" % type(x))


def b_abs(x):
    if isinstance(x, Term):
        return T.abs_(x)
    return native(abs, x)


def b_round(x, nd=None):
    if isinstance(x, Term):
        return T.round_(x, nd)
    return native(round, x) if nd is None else native(round, x, nd)


def b_enumerate(x, start=0):
    s = sym_iter(x)
    if s is None:
        return enumerate(x, start)
    return SIter(s[0], lambda k: (T.add(k, start), s[1](k)))


def b_zip(*xs):
    ss = [sym_iter(x) for x in xs]
    if not any(s is not None for s in ss):
        return zip(*xs)
    if not all(s is not None for s in ss):
        # some known, some symbolic lengths
        conv = []
        for x, s in zip(xs, ss):
            if s is None:
                l = list(x)
                conv.append((len(l), lambda k, l=l: SA.pick(l, k, lambda y: y)))
            else:
                conv.append(s)
        ss = conv
    n = ss[0][0]
    for s in ss[1:]:
        if not T.truth(T.eq(n, s[0])):
            n = T.min_(n, s[0])
    if isinstance(n, int):
        return zip(*[[s[1](i) for i in range(n)] for s in ss])
    return SIter(n, lambda k: tuple(s[1](k) for s in ss))


def b_reversed(x):
    s = sym_iter(x)
    if s is None:
        return PList(native(reversed, x))
    n, get = s
    return SIter(n, lambda k: get(T.sub(T.sub(n, 1), k)))


def b_list(x=()):
    s = sym_iter(x)
    if s is None:
        return PList(native(list, x))
    r = PList()
    n, get = s
    if isinstance(x, PList):
        r.segs = list(x.segs)
    else:
        if isinstance(x, SArr):
            f = x.snap()
            r.segs = [("gen", n, (lambda k: f(k)))] if x.ndim == 1 else None
            if r.segs is None:
                raise Unsupported("list of array rows")
        else:
            r.segs = [("gen", n, get)]
    return r


def b_tuple(x=()):
    if sym_iter(x) is not None:
        raise Unsupported("tuple of symbolic length")
    return native(tuple, x)


def b_any(x):
    s = sym_iter(x)
    if s is not None:
        return SA.exists_idx((s[0],), lambda k: T.tb(s[1](k))) is not None
    for v in x:
        if v:
            return True
    return False


def b_all(x):
    s = sym_iter(x)
    if s is not None:
        return SA.exists_idx((s[0],), lambda k: T.not_(T.tb(s[1](k)))) is None
    for v in x:
        if not v:
            return False
    return True


def b_str(x=""):
    return native(str, x)


def b_print(*a, **k):
    return None


def b_hasattr(o, n):
    if isinstance(o, Opaque):
        raise Unsupported("lost value: " + o.why)
    if isinstance(o, (Term, SArr)):
        if isinstance(o, Term):
            ref = {"r": 0.5, "i": 1, "b": True}[o.k]
            return hasattr(ref, n)
        import numpy
        return hasattr(numpy.zeros(1), n)
    return native(hasattr, o, n)


def b_sorted(x, key=None, reverse=False):
    if sym_iter(x) is not None:
        raise Unsupported("sorting a symbolic number of elements")
    return PList(native(sorted, x, key=key, reverse=reverse))


def b_map(f, *xs):
    f = callable_of(f)
    if any(sym_iter(x) is not None for x in xs):
        z = b_zip(*xs)
        s = sym_iter(z)
        if s is None:
            return [f(*v) for v in z]
        return SIter(s[0], lambda k: f(*s[1](k)))
    return map(f, *xs)


def b_filter(f, x):
    if sym_iter(x) is not None:
        raise Unsupported("filter of a symbolic number of elements")
    return filter(callable_of(f) if f is not None else None, x)


def callable_of(f):
    g = CALLS.get(f) if _hashable(f) else None
    return g if g is not None else f


def _hashable(f):
    try:
        hash(f)
        return True
    except TypeError:
        return False


def b_divmod(a, b):
    return (T.floordiv(a, b), T.mod(a, b)) if isinstance(a, Term) or isinstance(b, Term) else native(divmod, a, b)


def b_pow(a, b, *c):
    return binop(ast.Pow, a, b)


def b_iter(x):
    if sym_iter(x) is not None:
        raise Unsupported("iter() of a symbolic iterable")
    return native(iter, x)


def b_set(x=()):
    if sym_iter(x) is not None:
        raise Unsupported("set of symbolic length")
    return native(set, x)


CALLS = {len: b_len, range: b_range, float: b_float, int: b_int, bool: b_bool, isinstance: b_isinstance, type: b_type,
         sum: b_sum, min: b_minmax("min"), max: b_minmax("max"), abs: b_abs, round: b_round, enumerate: b_enumerate,
         zip: b_zip, reversed: b_reversed, list: b_list, tuple: b_tuple, any: b_any, all: b_all, str: b_str,
         print: b_print, hasattr: b_hasattr, sorted: b_sorted, map: b_map, filter: b_filter, divmod: b_divmod,
         pow: b_pow, iter: b_iter, set: b_set}


# ------------------------------------------------------------------ string formatting
def fmt_percent(s, args):
    """s % args with symbolic numbers: placeholders; formatting errors as Python reports them"""
    tup = args if isinstance(args, tuple) else (args,)
    if isinstance(args, dict):
        if any(isinstance(v, (Term, SArr)) for v in args.values()):
            raise Unsupported("mapping format")
        return native(operator.mod, s, args)
    if not any(_has_term(a) for a in tup):
        return native(operator.mod, s, args)
    # check on dummy values that the format is legal
    def dummy(a):
        if isinstance(a, Term):
            return {"r": 0.5, "i": 1, "b": True}[a.k]
        return a
    native(operator.mod, s, tuple(dummy(a) if isinstance(a, Term) else a for a in tup))
    import re
    out, pos, i = [], 0, 0
    for m in re.finditer(r"%(?:\(\w+\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])", s):
        out.append(s[pos:m.start()])
        pos = m.end()
        if m.group(4) == "%":
            out.append("%")
            continue
        if "*" in (m.group(2) or "") + (m.group(3) or ""):
            raise Unsupported("* in format")
        a = tup[i]
        i += 1
        if isinstance(a, Term):
            c = m.group(4)
            if c in "sr":
                out.append(T.placeholder(a, c))
            elif a.v is not None:
                out.append(m.group(0) % float(a.v))
            elif c in "di" and a.k == "i" and not m.group(1) and not m.group(2):
                out.append(T.placeholder(a, "s"))
            elif c in "di" and a.k == "r":
                out.append(T.placeholder(T.trunc_(a), "s"))
            else:
                out.append(T.placeholder(a, "f:" + m.group(0)[1:]))
        else:
            out.append(m.group(0) % (a,))
    out.append(s[pos:])
    return "".join(out)


def _has_term(a):
    return isinstance(a, Term)


_PHRE = "\ue000\\d+\ue001"
NUMCH = "0123456789.+-einfaL"


def str_tokens(s):
    """characters and symbolic numerals (of unknown length, at least 1)"""
    import re
    out = []
    for x in re.split("(%s)" % _PHRE, s):
        out += [x] if x.startswith("\ue000") else list(x)
    return out


def str_index(s, k):
    """s[k] for a string holding symbolic numerals"""
    if "\ue002" in s:
        raise Unsupported("part of a symbolic number's text")
    tk = str_tokens(s)
    first = [x.startswith("\ue000") for x in tk].index(True)
    last = len(tk) - 1 - [x.startswith("\ue000") for x in tk][::-1].index(True)
    tail = len(tk) - 1 - last
    if isinstance(k, int):
        if 0 <= k < first:
            return tk[k]
        if k < 0 and -k <= tail:
            return tk[k]
        raise Unsupported("character of a symbolic number's text")
    if k.step not in (None, 1):
        raise Unsupported("stepped slice of a symbolic number's text")
    lo, hi = k.start, k.stop
    if lo is None or lo == 0:
        a = 0
    elif 0 < lo <= first:
        a = lo
    elif lo < 0 and -lo <= tail:
        a = len(tk) + lo
    elif lo < 0 and hi is None:
        return "\ue002" + "".join(tk[last + 1:])       # the end of the numeral (at least) and what follows it
    else:
        raise Unsupported("slice through a symbolic number's text")
    if hi is None:
        b = len(tk)
    elif 0 <= hi <= first:
        b = hi
    elif hi < 0 and -hi <= tail:
        b = len(tk) + hi
    elif hi == -2 and tail == 0 and T.PH[int(tk[-1][1:-1])][1] == "s" and ends_point_zero(tk[-1], ask=False):
        return "".join(tk[a:-1]) + T.placeholder(T.PH[int(tk[-1][1:-1])][0], "v")
    else:
        raise Unsupported("slice through a symbolic number's text")
    return "".join(tk[a:b])


def ends_point_zero(ph, ask=True):
    """does the text of this real number end in .0 (whole and below 1e16)? decides it on this path"""
    t, spec = T.PH[int(ph[1:-1])]
    if t.k != "r" or spec != "s":
        raise Unsupported("text of a symbolic number")
    c = T.and_(T.eq(t, T.floor_(t)), T.lt(T.abs_(t), T.real_const(10 ** 16)))
    if ask:
        return T.truth(c)
    return T.proves(c)


def str_eq(a, b):
    if a == b and "\ue002" not in a:
        return True
    if "\ue002" in a or "\ue002" in b:
        ta, tb = a.split("\ue002")[-1], b.split("\ue002")[-1]
        n = min(len(ta), len(tb))
        if "\ue000" in ta or "\ue000" in tb or n == 0 or ta[-n:] == tb[-n:]:
            raise Unsupported("part of a symbolic number's text")
        return False
    if ("\ue000" in a) or ("\ue000" in b):
        for c in "_/ ":         # characters that no number's text has: the strings are equal piece by piece
            if c in a or c in b:
                pa, pb = a.split(c), b.split(c)
                if len(pa) != len(pb):
                    return False
                for x, y in sorted(zip(pa, pb), key=lambda p: ("\ue000" in p[0]) + ("\ue000" in p[1])):
                    if not str_eq(x, y):
                        return False
                return True
        ta, tb = str_tokens(a), str_tokens(b)
        for k in (0, -1):       # equal ends
            while ta and tb and not ta[k].startswith("\ue000") and not tb[k].startswith("\ue000"):
                if ta[k] != tb[k]:
                    return False
                del ta[k], tb[k]
        if not ta and not tb:
            return True
        if not ta or not tb:
            return False        # a number's text is never empty
        if len(ta) == 1 and len(tb) == 1 and ta[0].startswith("\ue000") and tb[0].startswith("\ue000"):
            (t, sa), (u, sb) = T.PH[int(ta[0][1:-1])], T.PH[int(tb[0][1:-1])]
            if sa == sb and t is u or T.proves(T.eq(t, u)) and sa == sb:
                return True
            if sa not in ("s", "r", "v") or sb not in ("s", "r", "v"):
                raise Unsupported("comparing strings with symbolic numbers")
            if sa != sb:
                if T.proves(T.not_(T.eq(t, u))):
                    return False
                raise Unsupported("comparing strings with symbolic numbers")
            return T.truth(T.eq(t, u))
        if len(ta) == 1 and ta[0].startswith("\ue000"):
            ta, tb = tb, ta
        if len(tb) == 1 and tb[0].startswith("\ue000") and not any(x.startswith("\ue000") for x in ta):
            w = "".join(ta)
            t, sp = T.PH[int(tb[0][1:-1])]
            try:
                v = float(w)
            except ValueError:
                return False
            if any(c not in NUMCH for c in w) or sp not in ("s", "v") or t.k == "i":
                raise Unsupported("comparing strings with symbolic numbers")
            can = repr(v)
            can = can[:-2] if sp == "v" and can.endswith(".0") else can
            return can == w and T.truth(T.eq(t, T.real_const(w)))
        raise Unsupported("comparing strings with symbolic numbers")
    return False


# ------------------------------------------------------------------ operators
_BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
        ast.Mod: operator.mod, ast.Pow: operator.pow, ast.BitAnd: operator.and_, ast.BitOr: operator.or_,
        ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
        ast.MatMult: operator.matmul}
_IBIN = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.FloorDiv: operator.ifloordiv,
         ast.Mod: operator.imod, ast.Pow: operator.ipow, ast.BitAnd: operator.iand, ast.BitOr: operator.ior,
         ast.BitXor: operator.ixor}
_CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq,
        ast.NotEq: operator.ne}


def binop(op, a, b):
    for x in (a, b):
        if isinstance(x, Opaque):
            raise Unsupported("lost value: " + x.why)
    if op is ast.Mod and isinstance(a, str):
        return fmt_percent(a, b)
    if isinstance(a, bool) and isinstance(b, Term) or isinstance(b, bool) and isinstance(a, Term):
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
    if op is ast.Div:
        if isinstance(a, (int, float, Term)) and isinstance(b, (int, float, Term)):
            if T.is_inf(a) or T.is_inf(b):
                return native(operator.truediv, a, b)
            return native(T.div, a, b)
        return native(operator.truediv, a, b)
    if op is ast.Pow and isinstance(a, (int, float, Term)) and isinstance(b, (int, float, Term)) \
            and not (isinstance(a, int) and isinstance(b, int) and b >= 0):
        return native(T.pow_, a, b)
    return native(_BIN[op], a, b)


def compare(op, a, b):
    for x in (a, b):
        if isinstance(x, Opaque):
            raise Unsupported("lost value: " + x.why)
    if op is ast.Is:
        return a is b or (isinstance(a, Term) and isinstance(b, Term) and a.k == b.k and a.e.eq(b.e))
    if op is ast.IsNot:
        return not compare(ast.Is, a, b)
    if op in (ast.In, ast.NotIn):
        r = contains(a, b)
        return r if op is ast.In else (not r)
    if isinstance(a, str) and isinstance(b, str) and op in (ast.Eq, ast.NotEq):
        r = str_eq(a, b)
        return r if op is ast.Eq else not r
    return native(_CMP[op], a, b)


def contains(a, b):
    if isinstance(a, str) and isinstance(b, (list, tuple, set, frozenset)) and not (
            isinstance(b, PList) and b.segs is not None):
        if "\ue000" in a or "\ue002" in a or any(isinstance(x, str) and ("\ue000" in x or "\ue002" in x) for x in b):
            return any(str_eq(a, x) for x in b if isinstance(x, str))
    s = sym_iter(b) if not isinstance(b, (dict, str)) else None
    if s is not None:
        return SA.exists_idx((s[0],), lambda k: T.eq(s[1](k), a)) is not None
    return native(operator.contains, b, a)


# ------------------------------------------------------------------ frames and functions
class Frame(object):
    __slots__ = ("vars", "globals", "parent", "locals", "globs", "owner", "self_arg", "nonlocals", "is_class")

    def __init__(self, vars_, globals_, parent=None, locals_=None, globs=()):
        self.vars, self.globals, self.parent = vars_, globals_, parent
        self.locals, self.globs = locals_, set(globs)
        self.owner = self.self_arg = None
        self.nonlocals = ()
        self.is_class = False


def assigned_names(node):
    """names bound in a function body (excluding nested scopes), global and nonlocal declarations, is generator"""
    names, globs, nonl = set(), set(), set()
    gen = [False]

    def visit(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            visit(n.generators[0].iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    names.add(w.target.id)
            return
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in node.body if isinstance(node.body, list) else [node.body]:
        visit(s)
    return names - globs - nonl, globs, nonl, gen[0]


class PGen(object):
    """generator of an interpreted function: its body runs when iteration starts, collecting what it yields"""
    def __init__(self, run):
        self._run, self._items, self._pos, self._driven = run, None, 0, False

    def _fill(self):
        if self._driven:
            raise Unsupported("generator used after a loop over it")
        if self._items is None:
            self._items = self._run(None)

    def drive(self, body):
        """run the generator's body, calling body(value) at every yield; the BreakX / ReturnX that body raised, if any"""
        def each(v):
            try:
                body(v)
            except ContinueX:
                pass
            except (BreakX, ReturnX) as x:
                raise LeaveGen(self, x)
        self._driven = True
        try:
            self._run(each)
        except LeaveGen as x:
            if x.gen is not self:
                raise
            return x.what
        return None

    def __iter__(self):
        self._fill()
        return self

    def __next__(self):
        self._fill()
        if self._pos >= len(self._items):
            raise legit(StopIteration())
        self._pos += 1
        return self._items[self._pos - 1]


class Interp(object):
    def __init__(self):
        self.modules = {}
        self.frames = []
        self.overrides = {}         # (module, attribute) -> value, set by harnesses (assumed contracts)
        self.lines = {}             # executed functions: qualified names
        self.executed = set()
        self.stub_modules = {}
        from . import npstub
        self.stub_modules.update(npstub.modules(self))

    # ---- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.stub_modules:
            return self.stub_modules[name]
        if name == "echidna" or name.startswith("echidna."):
            path, pkg = loader.module_path(name)
            if path is None:
                raise legit(ImportError("No module named %s" % name))
            if "." in name:
                self.module(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]
            m = types.ModuleType(name)
            m.__file__ = path
            if pkg:
                m.__path__ = [os.path.dirname(path)]
            self.modules[name] = m
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(loader.translate(path), path)
                fr = Frame(m.__dict__, m.__dict__)
                m.__dict__["__builtins__"] = builtins
                self.run_block(tree.body, fr)
            except BaseException:
                del self.modules[name]
                raise
            if "." in name:
                pn, cn = name.rsplit(".", 1)
                setattr(self.modules[pn], cn, m)
            for (mod, attr), v in self.overrides.items():
                if mod == name:
                    setattr(m, attr, v)
            return m
        raise legit(ImportError("No module named %s" % name))

    def override(self, mod, attr, v):
        self.overrides[(mod, attr)] = v
        if mod in self.modules:
            setattr(self.modules[mod], attr, v)

    # ---- statements
    def run_block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Break(self, s, fr):
        raise BreakX()

    def s_Continue(self, s, fr):
        raise ContinueX()

    def s_Return(self, s, fr):
        raise ReturnX(self.ev(s.value, fr) if s.value is not None else None)

    def s_Global(self, s, fr):
        fr.globs.update(s.names)

    def s_Nonlocal(self, s, fr):
        pass

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            self.store(t.id, self.iop(op, cur, self.ev(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr_(o, t.attr)
            self.setattr_(o, t.attr, self.iop(op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev_index(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.iop(op, cur, self.ev(s.value, fr)))
        else:
            raise Unsupported("augmented assignment target")

    def iop(self, op, a, b):
        if isinstance(a, (SArr, list, set, dict)) and op in _IBIN:
            if isinstance(a, list) and not isinstance(a, PList):
                return native(_IBIN[op], a, b)
            return native(_IBIN[op], a, b)
        if isinstance(a, SArr) and op is ast.Div:
            return native(operator.itruediv, a, b)
        return binop(op, a, b)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                native(operator.delitem, fr.vars, t.id)
            elif isinstance(t, ast.Subscript):
                native(operator.delitem, self.ev(t.value, fr), self.ev_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                native(delattr, self.ev(t.value, fr), t.attr)
            else:
                raise Unsupported("del target")

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.run_block(s.body, fr)
        else:
            self.run_block(s.orelse, fr)

    def truth(self, v):
        if isinstance(v, Opaque):
            raise Unsupported("lost value: " + v.why)
        if isinstance(v, PList) and v.segs is not None:
            return T.truth(T.lt(0, v.sym_len()))
        return native(bool, v)

    def s_While(self, s, fr):
        n = 0
        while self.truth(self.ev(s.test, fr)):
            n += 1
            if n > 400:
                raise Unsupported("while loop without a bound")
            try:
                self.run_block(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                continue
        self.run_block(s.orelse, fr)

    def product_loop(self, s, fr, its):
        """for x in itertools.product(a, b, ...): as nested loops"""
        from . import loops

        def nest(vals):
            if len(vals) == len(its):
                self.assign(s.target, tuple(vals), fr)
                try:
                    self.run_block(s.body, fr)
                except ContinueX:
                    pass
                except BreakX:
                    raise Unsupported("break out of a product loop")
                return
            it = its[len(vals)]
            sy = sym_iter(it)
            if sy is None:
                for v in native(list, it):
                    nest(vals + [v])
            elif isinstance(sy[0], int):
                for i in range(sy[0]):
                    nest(vals + [sy[1](i)])
            else:
                loops.run(self, sy[0], lambda k: nest(vals + [sy[1](k)]), fr)
        nest([])
        self.run_block(s.orelse, fr)

    def s_For(self, s, fr):
        if isinstance(s.iter, ast.Call) and not s.iter.keywords and (isinstance(s.iter.func, ast.Name) or isinstance(
                s.iter.func, ast.Attribute) and isinstance(s.iter.func.value, ast.Name)):
            f = self.ev(s.iter.func, fr)
            if f is itertools.product:
                args = []
                for a in s.iter.args:
                    if isinstance(a, ast.Starred):
                        args.extend(native(list, self.ev(a.value, fr)))
                    else:
                        args.append(self.ev(a, fr))
                if any(sy is not None and not isinstance(sy[0], int) for sy in map(sym_iter, args)):
                    self.product_loop(s, fr, args)
                    return
                it = list(itertools.product(*[list(native(iter, a)) if sym_iter(a) is None else
                                              [sym_iter(a)[1](i) for i in range(sym_iter(a)[0])] for a in args]))
            else:
                it = self.ev(s.iter, fr)
        else:
            it = self.ev(s.iter, fr)
        sy = sym_iter(it)
        if sy is not None and not isinstance(sy[0], int):
            from . import loops
            n, get = sy

            def body(k):
                self.assign(s.target, get(k), fr)
                try:
                    self.run_block(s.body, fr)
                except ContinueX:
                    pass
            if loops.run(self, n, body, fr):
                return          # left by break
            self.run_block(s.orelse, fr)
            return
        if sy is not None:
            it = [sy[1](i) for i in range(sy[0])]
        if isinstance(it, Opaque):
            raise Unsupported("lost value: " + it.why)
        if isinstance(it, PGen) and it._items is None:
            def each(v):
                self.assign(s.target, v, fr)
                self.frames.append(fr)
                try:
                    self.run_block(s.body, fr)
                finally:
                    self.frames.pop()
            x = it.drive(each)
            if isinstance(x, ReturnX):
                raise x
            if x is None:
                self.run_block(s.orelse, fr)
            return
        itr = native(iter, it)
        while True:
            try:
                v = next(itr)
            except StopIteration:
                break
            except Exception as ex:
                mark(ex)
                raise
            self.assign(s.target, v, fr)
            try:
                self.run_block(s.body, fr)
            except BreakX:
                return
            except ContinueX:
                continue
        self.run_block(s.orelse, fr)

    def s_With(self, s, fr):
        def go(i):
            if i == len(s.items):
                self.run_block(s.body, fr)
                return
            cm = self.ev(s.items[i].context_expr, fr)
            v = native(type(cm).__enter__, cm)
            if s.items[i].optional_vars is not None:
                self.assign(s.items[i].optional_vars, v, fr)
            try:
                go(i + 1)
            except Exception as ex:
                ensure_legit(ex)
                if not native(type(cm).__exit__, cm, type(ex), ex, ex.__traceback__):
                    raise
            except (ReturnX, BreakX, ContinueX, LeaveGen):
                native(type(cm).__exit__, cm, None, None, None)
                raise
            else:
                native(type(cm).__exit__, cm, None, None, None)
        go(0)

    def s_Raise(self, s, fr):
        if s.exc is None:
            ex = sys.exc_info()[1]
            cur = getattr(self, "_handling", None)
            if cur:
                ex = cur[-1]
            if ex is None:
                raise legit(RuntimeError("No active exception to reraise"))
            raise ex
        v = self.ev(s.exc, fr)
        if isinstance(v, type) and issubclass(v, BaseException):
            v = native(v)
        if not isinstance(v, BaseException):
            raise legit(TypeError("exceptions must derive from BaseException"))
        try:
            v._pyvc = True
        except Exception:
            pass
        raise v

    def s_Try(self, s, fr):
        try:
            try:
                self.run_block(s.body, fr)
            except Exception as ex:
                ensure_legit(ex)
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = native(isinstance, ex, t)
                    if ok:
                        if h.name:
                            self.store(h.name, ex, fr)
                        self._handling = getattr(self, "_handling", []) + [ex]
                        try:
                            self.run_block(h.body, fr)
                        finally:
                            self._handling = self._handling[:-1]
                        if h.name:
                            fr.vars.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.run_block(s.orelse, fr)
        except (Unsupported,):
            raise
        except BaseException as ex:
            if s.finalbody and (isinstance(ex, Exception) or isinstance(ex, (ReturnX, BreakX, ContinueX, LeaveGen))):
                self.run_block(s.finalbody, fr)
            raise
        else:
            self.run_block(s.finalbody, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise legit(AssertionError(self.ev(s.msg, fr) if s.msg is not None else ""))

    def s_Import(self, s, fr):
        for a in s.names:
            m = self.import_(a.name)
            if a.asname:
                self.store(a.asname, m, fr)
            else:
                top = a.name.split(".")[0]
                self.store(top, self.import_(top), fr)

    def import_(self, name):
        if name in self.stub_modules or name == "echidna" or name.startswith("echidna."):
            return self.module(name)
        if name.split(".")[0] in ("matplotlib", "pylab", "mpl_toolkits", "ROOT", "rat", "pymongo", "scipy", "h5py",
                                  "numpy"):
            top = name.split(".")[0]
            if top in self.stub_modules:
                raise Unsupported("module %s" % name)
            return DummyModule(name)
        import importlib
        return native(importlib.import_module, name)

    def s_ImportFrom(self, s, fr):
        if s.module == "__future__":
            return
        mod = s.module or ""
        if s.level:
            pkg = fr.globals.get("__name__", "")
            if "__path__" not in fr.globals:
                pkg = pkg.rpartition(".")[0]
            for _ in range(s.level - 1):
                pkg = pkg.rpartition(".")[0]
            mod = pkg + ("." + mod if mod else "")
        m = self.import_(mod)
        for a in s.names:
            if a.name == "*":
                for k, v in list(vars(m).items()):
                    if not k.startswith("_"):
                        self.store(k, v, fr)
                continue
            if hasattr(m, a.name) or isinstance(m, DummyModule):
                v = getattr(m, a.name)
            else:
                try:
                    v = self.import_(mod + "." + a.name)
                except ImportError:
                    raise legit(ImportError("cannot import name %s" % a.name))
            self.store(a.asname or a.name, v, fr)

    def s_FunctionDef(self, s, fr):
        f = self.make_function(s, fr)
        for d in reversed(s.decorator_list):
            f = self.call(self.ev(d, fr), (f,), {})
        self.store(s.name, f, fr)

    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        bases = [b for b in bases]
        ns = {"__module__": fr.globals.get("__name__", "?"), "__qualname__": s.name}
        cf = Frame(ns, fr.globals, fr)
        cf.is_class = True
        self.run_block(s.body, cf)
        ns.pop("__metaclass__", None)
        try:
            c = native(type, s.name, tuple(bases) or (object,), ns)
        except TypeError:
            raise
        for v in ns.values():
            g = getattr(v, "__func__", v)
            if isinstance(v, property):
                for g in (v.fget, v.fset):
                    if hasattr(g, "_pyvc_info"):
                        g._pyvc_info["owner"] = c
            elif hasattr(g, "_pyvc_info"):
                g._pyvc_info["owner"] = c
        for d in reversed(s.decorator_list):
            c = self.call(self.ev(d, fr), (c,), {})
        self.store(s.name, c, fr)

    # ---- functions
    def make_function(self, node, fr):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwdef = {p.arg: self.ev(d, fr) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        params = [p.arg for p in a.posonlyargs + a.args]
        islambda = isinstance(node, ast.Lambda)
        names, globs, nonl, isgen = assigned_names(node)
        names = names | set(params) | {p.arg for p in a.kwonlyargs}
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        name = "<lambda>" if islambda else node.name
        parent = fr
        while parent is not None and parent.is_class:
            parent = parent.parent
        info = {"owner": None, "node": node, "frame": parent, "module": fr.globals.get("__name__")}
        interp = self

        def f(*args, **kw):
            loc = {}
            if len(args) > len(params) and not a.vararg:
                raise legit(TypeError("%s() takes %d positional arguments but %d were given"
                                      % (name, len(params), len(args))))
            for p, v in zip(params, args):
                loc[p] = v
            if a.vararg:
                loc[a.vararg.arg] = tuple(args[len(params):])
            kwonly = [p.arg for p in a.kwonlyargs]
            extra = {}
            for k, v in kw.items():
                if k in params or k in kwonly:
                    if k in loc:
                        raise legit(TypeError("%s() got multiple values for argument '%s'" % (name, k)))
                    loc[k] = v
                elif a.kwarg:
                    extra[k] = v
                else:
                    raise legit(TypeError("%s() got an unexpected keyword argument '%s'" % (name, k)))
            nd = len(params) - len(defaults)
            for i, p in enumerate(params):
                if p not in loc:
                    if i < nd:
                        raise legit(TypeError("%s() missing 1 required positional argument: '%s'" % (name, p)))
                    loc[p] = defaults[i - nd]
            for p in kwonly:
                if p not in loc:
                    if p not in kwdef:
                        raise legit(TypeError("%s() missing keyword argument: '%s'" % (name, p)))
                    loc[p] = kwdef[p]
            if a.kwarg:
                loc[a.kwarg.arg] = extra
            nf = Frame(loc, fr.globals, parent, names, globs)
            nf.nonlocals = nonl
            nf.owner = info["owner"]
            nf.self_arg = args[0] if args else None
            interp.executed.add("%s.%s%s" % (info["module"], info["owner"].__name__ + "." if info["owner"] else "", name))
            if isgen:
                return PGen(lambda each: interp.run_gen(node, nf, each))
            if len(interp.frames) > 150:
                raise Unsupported("recursion depth")
            interp.frames.append(nf)
            try:
                if islambda:
                    return interp.ev(node.body, nf)
                try:
                    interp.run_block(node.body, nf)
                except ReturnX as r:
                    return r.v
                return None
            finally:
                interp.frames.pop()
        f.__name__ = name
        f.__qualname__ = name
        f.__doc__ = None if islambda else ast.get_docstring(node)
        f._pyvc_info = info
        f.__module__ = fr.globals.get("__name__")
        return f

    def run_gen(self, node, nf, each=None):
        if each is not None and any(isinstance(x, (ast.Try, ast.With)) for x in ast.walk(node)):
            raise Unsupported("try or with in a generator")
        out = PList()
        nf.vars["\0yield"] = out if each is None else each
        self.frames.append(nf)
        try:
            self.run_block(node.body, nf)
        except ReturnX:
            pass
        finally:
            self.frames.pop()
        return out

    def call(self, f, args, kw):
        if isinstance(f, Opaque):
            raise Unsupported("lost value: " + f.why)
        if isinstance(f, types.FunctionType) and hasattr(f, "_pyvc_info"):
            return f(*args, **kw)
        g = CALLS.get(f) if _hashable(f) else None
        if g is not None:
            try:
                return g(*args, **kw)
            except Exception as ex:
                mark(ex)
                raise
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, str):
            return self.str_method(f, args, kw)
        return native(f, *args, **kw)

    def str_method(self, f, args, kw):
        s = f.__self__
        if f.__name__ == "format":
            return native(s.format, *args, **kw)
        if "\ue002" in s or any(isinstance(a, str) and "\ue002" in a for a in args):
            raise Unsupported("part of a symbolic number's text")
        if "\ue000" in s or any(isinstance(a, str) and "\ue000" in a for a in args):
            if f.__name__ == "endswith" and tuple(args) == (".0",):
                tk = str_tokens(s)
                if tk[-1].startswith("\ue000"):
                    return ends_point_zero(tk[-1])
            if f.__name__ == "rstrip" and tuple(args) in (("0",), (".",), ("0.",), (".0",)):
                tk = str_tokens(s)
                if not tk[-1].startswith("\ue000"):
                    return native(f, *args)
                t, spec = T.PH[int(tk[-1][1:-1])]
                x = T.abs_(t)
                pos = T.and_(T.lt(x, T.real_const(10 ** 16)), T.or_(T.eq(x, 0), T.le(T.real_const(T.Fraction(1, 10000)), x)))
                if tuple(args) == ("0",) and spec == "s" and t.k == "r" and T.proves(pos):
                    return "".join(tk[:-1]) + T.placeholder(t, "s0")
                if tuple(args) == (".",) and spec == "s0":
                    return "".join(tk[:-1]) + T.placeholder(t, "v0")
                raise Unsupported("str.rstrip of a string with a symbolic number")
            if f.__name__ not in ("join", "replace", "split", "rsplit", "partition", "rpartition", "startswith",
                                  "endswith", "strip", "encode"):
                raise Unsupported("str.%s of a string with a symbolic number" % f.__name__)
            if f.__name__ in ("startswith", "endswith", "strip", "split", "rsplit", "partition", "rpartition", "replace"):
                # only when the argument cannot match inside the number's digits
                for a in args:
                    if isinstance(a, str) and any(c in NUMCH for c in a):
                        raise Unsupported("str.%s near a symbolic number" % f.__name__)
        r = native(f, *args, **kw)
        return PList(r) if isinstance(r, list) else r

    # ---- names
    def load(self, n, fr):
        f = fr
        if n in fr.globs:
            f = None
        while f is not None:
            if n in f.vars:
                v = f.vars[n]
                if isinstance(v, Opaque):
                    raise Unsupported("lost value: " + v.why)
                if isinstance(v, Lazy):
                    v = v.force()
                return v
            if f is fr and f.locals is not None and n in f.locals:
                raise legit(UnboundLocalError("local variable '%s' referenced before assignment" % n))
            f = f.parent
            while f is not None and f.is_class:
                f = f.parent
        if n in fr.globals:
            return fr.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise legit(NameError("name '%s' is not defined" % n))

    def store(self, n, v, fr):
        if n in fr.globs:
            fr.globals[n] = v
        elif n in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if n in f.vars:
                    f.vars[n] = v
                    return
                f = f.parent
            raise legit(NameError(n))
        else:
            fr.vars[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr_(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if sym_iter(v) is not None:
                raise Unsupported("unpacking a symbolic iterable")
            vs = native(list, v)
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(vs) < len(t.elts) - 1:
                    raise legit(ValueError("not enough values to unpack"))
                parts = vs[:i] + [PList(vs[i:len(vs) - after])] + vs[len(vs) - after:]
                for x, y in zip(t.elts, parts):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            if len(vs) != len(t.elts):
                raise legit(ValueError("too many values to unpack" if len(vs) > len(t.elts)
                                       else "not enough values to unpack"))
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        else:
            raise Unsupported("assignment target %s" % type(t).__name__)

    # ---- attribute and item access
    def getattr_(self, o, n):
        if isinstance(o, Opaque):
            raise Unsupported("lost value: " + o.why)
        if n.startswith("__") and not n.endswith("__"):
            raise Unsupported("private name mangling")
        v = native(getattr, o, n)
        if isinstance(v, Opaque):
            raise Unsupported("lost value: " + v.why)
        return v

    def setattr_(self, o, n, v):
        if isinstance(o, (Term, int, float, str)):
            raise legit(AttributeError("object has no attribute '%s'" % n))
        native(setattr, o, n, v)

    def getitem(self, o, k):
        if isinstance(o, Opaque):
            raise Unsupported("lost value: " + o.why)
        if isinstance(o, Term):
            raise legit(TypeError("'float' object is not subscriptable"))
        if isinstance(o, (tuple, str)):
            if isinstance(k, Term):
                if k.k != "i":
                    raise legit(TypeError("indices must be integers or slices, not float"))
                return o[conc_index(k, len(o))]
            if isinstance(k, slice):
                k = conc_slice(k, len(o))
            if isinstance(o, str) and ("\ue000" in o or "\ue002" in o):
                return str_index(o, k)
        if isinstance(o, list) and not isinstance(o, PList):
            if isinstance(k, Term):
                if k.k != "i":
                    raise legit(TypeError("list indices must be integers or slices, not float"))
                return o[conc_index(k, len(o))]
            if isinstance(k, slice):
                k = conc_slice(k, len(o))
        v = native(operator.getitem, o, k)
        if isinstance(v, Opaque):
            raise Unsupported("lost value: " + v.why)
        return v

    def setitem(self, o, k, v):
        if isinstance(o, Opaque):
            raise Unsupported("lost value: " + o.why)
        if isinstance(o, list) and not isinstance(o, PList) and isinstance(k, Term):
            k = conc_index(k, len(o))
        native(operator.setitem, o, k, v)

    # ---- expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if type(v) is float:
            return T.to_real(v) if not T.is_inf(v) else v
        return v

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr_(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev_index(e.slice, fr))

    def ev_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) for x in s.elts)
        return self.ev(s, fr)

    def e_Slice(self, s, fr):
        return self.ev_index(s, fr)

    def e_BinOp(self, e, fr):
        return binop(type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return native(operator.neg, v)
        if isinstance(e.op, ast.UAdd):
            return native(operator.pos, v)
        return native(operator.invert, v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v if not isinstance(v, Term) or v.k != "b" else (not isand)
        return v

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        r = True
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(x, fr)
            r = compare(type(op), left, right)
            if i == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return False
            left = right
        return r

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.ev_list(e.elts, fr))

    def e_List(self, e, fr):
        return PList(self.ev_list(e.elts, fr))

    def e_Set(self, e, fr):
        return native(set, self.ev_list(e.elts, fr))

    def ev_list(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                if sym_iter(v) is not None:
                    raise Unsupported("star of a symbolic iterable")
                out.extend(native(list, v))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                native(operator.setitem, d, kk, self.ev(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_function(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store(e.target.id, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, fr)
                spec = self.e_JoinedStr(v.format_spec, fr) if v.format_spec is not None else ""
                if v.conversion == 114:
                    x = native(repr, x)
                elif v.conversion == 115:
                    x = native(str, x)
                out.append(native(format, x, spec))
        return "".join(out)

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, e, fr):
        f = fr
        v = self.ev(e.value, fr) if e.value is not None else None
        y = f.vars["\0yield"]
        if isinstance(y, PList):
            y.append(v)
        else:
            y(v)
        return None

    def e_Call(self, e, fr):
        f = self.ev(e.func, fr)
        args = self.ev_list(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                for kk in d:
                    if kk in kw:
                        raise legit(TypeError("got multiple values for keyword argument '%s'" % kk))
                    kw[kk] = d[kk]
            else:
                kw[k.arg] = self.ev(k.value, fr)
        if f is builtins.super:
            if not args:
                x = fr
                while x is not None and x.owner is None:
                    x = x.parent
                return native(super, x.owner, x.self_arg)
            return native(super, *args)
        if f is builtins.eval or f is builtins.exec:
            return self.dyn(f is builtins.eval, args, fr)
        if f is builtins.locals:
            return fr.vars
        if f is builtins.globals:
            return fr.globals
        if f is builtins.vars and not args:
            return fr.vars
        return self.call(f, args, kw)

    def dyn(self, iseval, args, fr):
        if not isinstance(args[0], str):
            raise Unsupported("eval/exec of a code object")
        import re
        names = {}

        def rep(m):
            t, spec = T.PH[int(m.group(1))]
            if spec not in ("s", "r"):
                raise Unsupported("formatted symbolic number in evaluated code")
            n = "__ph_%s" % m.group(1)
            names[n] = t
            return "(%s)" % n
        src = re.sub("\ue000(\\d+)\ue001", rep, args[0])
        try:
            tree = ast.parse(src, mode="eval" if iseval else "exec")
        except SyntaxError as ex:
            raise legit(ex)
        f2 = fr
        if len(args) > 1:
            g = args[1]
            l = args[2] if len(args) > 2 else g
            f2 = Frame(l, g)
        saved = {}
        cf = Frame(names, f2.globals, None)
        # placeholders resolve first
        ph = _PhFrame(names, f2)
        if iseval:
            return self.ev(tree.body, ph)
        self.run_block(tree.body, ph)
        return None

    # ---- comprehensions
    def e_ListComp(self, e, fr):
        r = PList()
        self.comp(e.generators, fr, lambda f: r.append(self.ev(e.elt, f)), r)
        return r

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        r = PList()
        self.comp(e.generators, fr, lambda f: r.append(self.ev(e.elt, f)), r)
        return native(set, r)

    def e_DictComp(self, e, fr):
        r = {}
        self.comp(e.generators, fr, lambda f: native(operator.setitem, r, self.ev(e.key, f), self.ev(e.value, f)), r)
        return r

    def comp(self, gens, fr, emit, acc=None):
        cf = Frame({"\0acc": acc}, fr.globals, fr)
        if fr.is_class:
            cf.parent = fr
        cf.owner, cf.self_arg = fr.owner, fr.self_arg

        def go(i, f):
            if i == len(gens):
                emit(f)
                return
            g = gens[i]
            it = self.ev(g.iter, fr if i == 0 else f)
            sy = sym_iter(it)
            if sy is not None and not isinstance(sy[0], int):
                from . import loops

                def body(k):
                    self.assign(g.target, sy[1](k), f)
                    for c in g.ifs:
                        if not self.truth(self.ev(c, f)):
                            return
                    go(i + 1, f)
                self.frames.append(f)
                try:
                    loops.run(self, sy[0], body, f)
                finally:
                    self.frames.pop()
                return
            if sy is not None:
                it = [sy[1](j) for j in range(sy[0])]
            if isinstance(it, PGen) and it._items is None:
                def each(v):
                    self.assign(g.target, v, f)
                    for c in g.ifs:
                        if not self.truth(self.ev(c, f)):
                            return
                    go(i + 1, f)
                it.drive(each)
                return
            for v in native(list, it):
                self.assign(g.target, v, f)
                if all(self.truth(self.ev(c, f)) for c in g.ifs):
                    go(i + 1, f)
        go(0, cf)


class _PhFrame(Frame):
    """frame for evaluated code: placeholder names on top of the calling frame"""
    __slots__ = ()

    def __init__(self, names, base):
        Frame.__init__(self, _Layer(names, base.vars), base.globals, base.parent, None, base.globs)
        self.owner, self.self_arg, self.nonlocals, self.is_class = base.owner, base.self_arg, base.nonlocals, False


class _Layer(object):
    def __init__(self, top, base):
        self.top, self.base = top, base

    def __contains__(self, k):
        return k in self.top or k in self.base

    def __getitem__(self, k):
        return self.top[k] if k in self.top else self.base[k]

    def __setitem__(self, k, v):
        self.base[k] = v

    def __delitem__(self, k):
        del self.base[k]

    def pop(self, k, d=None):
        return self.base.pop(k, d)


class DummyModule(types.ModuleType):
    """plotting and similar libraries: importable, unusable"""
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _DummyAttr(self.__name__ + "." + n)


class _DummyAttr(object):
    def __init__(self, n):
        self.n = n

    def __call__(self, *a, **k):
        raise Unsupported("call of %s" % self.n)

    def __getattr__(self, x):
        if x.startswith("__"):
            raise AttributeError(x)
        return _DummyAttr(self.n + "." + x)

    def __mro_entries__(self, bases):
        return (object,)
