"""Stand-ins, for symbolic execution, of the external modules the code uses (assumed contracts on dependencies)."""
import copy as _copy
import math as _math
import types
import warnings as _warnings
import z3
from . import terms as T
from . import sarr as SA
from .sarr import SArr, legit
from .terms import Term, Unsupported


def _num(f):
    def g(x, *rest, **kw):
        if kw:
            raise Unsupported("numpy keywords %s" % list(kw))
        if isinstance(x, (SArr, list, tuple)):
            return SA.map1(f, SA.asarray(x))
        if not T.isnum(x):
            raise legit(TypeError("bad operand type: %r" % type(x).__name__))
        return f(x)
    return g


def np_log_arr(x):
    """numpy.log: defined for positive arguments (log of 0 or less gives -inf/nan: the path is Undefined)"""
    from .engine import Undefined
    if isinstance(x, (SArr, list, tuple)):
        x = SA.asarray(x)
        SA.define_all(x, lambda v: T.lt(0, v), "log of a non-positive array element")
        return SA.map1(lambda v: T.log(T.to_real(v)), x, "r")
    if not T.truth(T.lt(0, x)):
        raise Undefined("log of a non-positive number")
    return T.log(T.to_real(x))


def np_sqrt(x):
    from .engine import Undefined
    if isinstance(x, (SArr, list, tuple)):
        x = SA.asarray(x)
        SA.define_all(x, lambda v: T.le(0, v), "sqrt of a negative array element")
        return SA.map1(lambda v: T.sqrt(T.to_real(v)), x, "r")
    if not T.truth(T.le(0, x)):
        raise Undefined("sqrt of a negative number")
    return T.sqrt(T.to_real(x))


def np_log_base(b):
    def f(x):
        if isinstance(x, (SArr, list, tuple)):
            l = np_log_arr(x)
            c = T.inv(T.log(T.to_real(b)))
            return SA.map1(lambda v: T.mul(v, c), l, "r")
        return T.mul(np_log_arr(x), T.inv(T.log(T.to_real(b))))
    return f


def np_array(x, dtype=None, copy=True, ndmin=0, order=None):
    if isinstance(x, SArr):
        r = x.copy()
    elif isinstance(x, (set, dict)) or x is None or isinstance(x, str):
        raise Unsupported("array of %r" % type(x))
    else:
        if isinstance(x, types.GeneratorType) or hasattr(x, "__next__"):
            x = list(x)
        from .interp import SRange, SIter
        if isinstance(x, (SRange, SIter)):
            g = x.get
            n = x.length()
            k = T.kind(g(Term(z3.Int(T.fresh_name("probe")), "i")))
            r = SArr.make((n,), lambda i: SA.conv(g(i), k), k)
        else:
            r = SA.asarray(x)
            r = r.copy() if isinstance(x, SArr) else r
    if dtype is not None:
        r = r.astype(dtype)
    return r


def shape_of(s):
    if isinstance(s, (int, Term)):
        s = (s,)
    if isinstance(s, SArr):
        s = s.tolist()
    out = []
    for d in s:
        if SA.as_index(d) is None:
            raise legit(TypeError("'float' object cannot be interpreted as an integer"))
        if T.truth(T.lt(d, 0)):
            raise legit(ValueError("negative dimensions are not allowed"))
        out.append(d)
    return tuple(out)


def filled(v):
    def f(shape, dtype=None, order=None, **kw):
        k = SA.kind_of(dtype) if dtype is not None else "r"
        c = SA.conv(v, k)
        return SArr.make(shape_of(shape), lambda *i: c, k)
    return f


def np_full(shape, v, dtype=None):
    k = SA.kind_of(dtype) if dtype is not None else T.kind(v)
    c = SA.conv(v, k)
    return SArr.make(shape_of(shape), lambda *i: c, k)


def like(v):
    def f(a, dtype=None, **kw):
        a = SA.asarray(a)
        k = SA.kind_of(dtype) if dtype is not None else a.k
        c = SA.conv(v, k)
        return SArr.make(a.shape, lambda *i: c, k)
    return f


class ObjArr(object):
    """one-dimensional array of objects: the values stored since its creation (None elsewhere)"""
    def __init__(self, n):
        self.n, self.writes = n, []
        self.shape, self.ndim = (n,), 1

    def _ix(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if SA.as_index(i) is None:
            raise Unsupported("index of an object array")
        return SA.norm_index(i, self.n)

    def __getitem__(self, i):
        i = self._ix(i)
        for j, v in reversed(self.writes):
            if T.truth(T.eq(i, j)):
                return v
        return None

    def __setitem__(self, i, v):
        self.writes = self.writes + [(self._ix(i), v)]      # a new list: seen by the loop summariser

    def __len__(self):
        return self.n

    def any(self):
        for j, v in self.writes:
            w = self[j]
            if w is not None and (hasattr(type(w), "__len__") or hasattr(type(w), "__bool__")):
                raise Unsupported("any() of an object array")
            if w is not None:
                return True
        return False


def np_empty(shape, dtype=None, order=None):
    sh = shape_of(shape)
    if dtype is object:
        if len(sh) != 1:
            raise Unsupported("object array of rank other than 1")
        return ObjArr(sh[0])
    k = SA.kind_of(dtype) if dtype is not None else "r"
    if not sh:
        v = T.Term(z3.Real(T.fresh_name("uninit")), "r")
        return SArr.make((), lambda: v, k)
    f = z3.Function(T.fresh_name("uninit"), *([T.I] * len(sh) + [T.R if k == "r" else T.I]))
    return SArr.make(sh, lambda *i: Term(f(*[T.ri(x) for x in i]), "r" if k == "r" else "i"), k)


def np_arange(*a, **kw):
    if kw:
        raise Unsupported("arange keywords")
    lo, hi, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    ints = all(T.kind(x) != "r" for x in (lo, hi, step))
    d = T.sub(hi, lo)
    if T.truth(T.eq(step, 0)):
        raise legit(ZeroDivisionError("division by zero"))
    n = T.ceil_(T.div_nofork(d, step))
    if T.truth(T.le(n, 0)):
        n = 0
    k = "i" if ints else "r"
    return SArr.make((n,), lambda i: SA.conv(T.add(lo, T.mul(step, i)), k), k)


def np_linspace(lo, hi, num=50, endpoint=True, retstep=False, **kw):
    if kw or retstep:
        raise Unsupported("linspace keywords")
    if SA.as_index(num) is None:
        raise legit(TypeError("'float' object cannot be interpreted as an integer"))
    if T.truth(T.lt(num, 0)):
        raise legit(ValueError("Number of samples, %s, must be non-negative." % num))
    if T.truth(T.eq(num, 1)):
        return SArr.make((1,), lambda i: T.to_real(lo), "r")
    if T.truth(T.eq(num, 0)):
        return SArr.make((0,), lambda i: T.to_real(lo), "r")
    den = T.sub(num, 1) if T.truth(endpoint) else num
    step = T.div_nofork(T.sub(T.to_real(hi), T.to_real(lo)), den)
    return SArr.make((num,), lambda i: T.add(T.to_real(lo), T.mul(step, i)), "r")


def np_logspace(lo, hi, num=50, endpoint=True, base=10, **kw):
    x = np_linspace(lo, hi, num, endpoint)
    b = T.to_real(base)
    # base**t := EXP(t*LOG(base))  (pow contract)
    if isinstance(b, Term) and b.v is None and b.e.eq(T.E_):
        return SA.map1(lambda t: T.exp(t), x)
    lb = T.log(b)
    return SA.map1(lambda t: T.exp(T.mul(t, lb)), x)


def np_isclose(a, b, rtol=None, atol=None, equal_nan=False):
    rtol = T.real_const(T.Fraction(1, 10**5)) if rtol is None else rtol
    atol = T.real_const(T.Fraction(1, 10**8)) if atol is None else atol

    def c(x, y):
        return T.le(T.abs_(T.sub(x, y)), T.add(atol, T.mul(rtol, T.abs_(y))))
    return SA.elementwise(c, a, b, "b")


def np_allclose(a, b, rtol=None, atol=None, equal_nan=False):
    r = np_isclose(a, b, rtol, atol)
    return SA.all_(r) if isinstance(r, SArr) else r


def np_array_equal(a, b):
    a, b = SA.asarray(a), SA.asarray(b)
    if len(a.shape) != len(b.shape) or not all(SA.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    return SA.all_(SA.elementwise(T.eq, a, b, "b"))


class WhereIdx(object):
    """numpy.where(cond)[axis] for a one-dimensional condition of symbolic length: the increasing list of the true indices"""
    def __init__(self, a):
        self.a = a
        self.f = a.snap()
        self._first = False
        self._len = None

    def first(self):
        if self._first is False:
            k = self._known()
            if k is not None:
                self._first = k
                return k
            idx = SA.exists_idx(self.a.shape, lambda k: T.tb(self.f(k)))
            if idx is not None:
                e = SA.eng()
                k0 = Term(z3.Int(T.fresh_name("k0w")), "i")
                e.assume(T.and_(T.le(0, k0), T.lt(k0, self.a.shape[0])))
                e.assume(T.tb(self.f(k0)))
                e.assume_univ(self.a.shape[0], lambda k: T.implies(T.lt(k, k0), T.not_(T.tb(self.f(k)))))
                self._first = k0
            else:
                self._first = None
        return self._first

    def _known(self):
        """an index that occurs in the condition and is provably the first where it holds"""
        e, n = SA.eng(), self.a.shape[0]
        v = z3.Int(T.fresh_name("w"))
        c = T.tb(self.f(Term(v, "i")))
        if not isinstance(c, Term):
            return None
        cands = {}
        for s in T.subterms(c.e):
            if z3.is_app(s) and s.num_args() and s.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                for a in s.children():
                    if a.sort() == T.I and not T.mentions(a, {v.decl().name()}):
                        cands[a.get_id()] = a
            elif z3.is_const(s) and s.sort() == T.I and s.decl().kind() == z3.Z3_OP_UNINTERPRETED and not s.eq(v):
                cands[s.get_id()] = s
        from .prover import boundaries, Prover
        more = boundaries(c.e, v)[:9]
        for j, a in enumerate(list(cands.values())[:6] + more):
            k = T.wrap_i(a)
            here = T.and_(T.le(0, k), T.lt(k, n), T.tb(self.f(k)))
            if not T.proves(here):
                continue
            i = Term(z3.Int(T.fresh_name("sk")), "i")
            before = T.and_(T.le(0, i), T.lt(i, k))
            if not e.feasible(T.rb(T.and_(before, T.tb(self.f(i))))):
                return k
            if j >= 6 and Prover(4).prove(e.pc, e.univs, T.rb(T.implies(before, T.not_(T.tb(self.f(i)))))):
                return k
        return None

    def __getitem__(self, i):
        if isinstance(i, int) and i == 0:
            k = self.first()
            if k is None:
                raise legit(IndexError("index 0 is out of bounds for axis 0 with size 0"))
            return k
        raise Unsupported("where()[%r]" % (i,))

    def __bool__(self):
        raise Unsupported("truth of where()")

    def length(self):
        if self.first() is None:
            return 0
        if self._len is None:       # the number of true elements, of which only the bounds are used
            self._len = Term(z3.Int(T.fresh_name("count")), "i")
            SA.eng().assume(T.and_(T.le(1, self._len), T.le(self._len, self.a.shape[0])))
        return self._len

    _pyvc_len = length
    size = property(length)

    @property
    def shape(self):
        return (self.length(),)

    def _pyvc_iter(self):
        raise Unsupported("iteration over where()")


def np_where(c, *ab):
    if ab:
        a, b = ab
        c = SA.asarray(c)
        a, b = SA.asarray(a), SA.asarray(b)
        sh = SA.broadcast_shapes(SA.broadcast_shapes(c.shape, a.shape), b.shape)
        c, a, b = [SA.broadcast_to(x, sh).snap() if True else None for x in (c, a, b)]
        k = "r"
        return SArr.make(sh, lambda *i: T.ite(T.tb(c(*i)), a(*i), b(*i)), k)
    c = SA.asarray(c)
    if c.ndim == 1 and isinstance(c.shape[0], int):
        out = [i for i in range(c.shape[0]) if T.truth(T.tb(c.at(i)))]
        return (SA.from_seq(out, "i") if out else SArr.make((0,), lambda i: 0, "i"),)
    if c.ndim == 1:
        return (WhereIdx(c),)
    raise Unsupported("where of rank %d" % c.ndim)


def np_unravel_index(i, shape):
    if isinstance(i, SA.FlatIdx):
        if len(shape) != len(i.shape) or not all(SA.same_dim(x, y) for x, y in zip(shape, i.shape)):
            raise Unsupported("unravel_index into another shape")
        return tuple(i.idx)
    if all(isinstance(d, int) for d in shape):
        if len(shape) == 1:
            return (i,)
        out = []
        for d in reversed(shape):
            out.append(T.mod(i, d))
            i = T.floordiv(i, d)
        return tuple(reversed(out))
    if len(shape) == 1:
        return (i,)
    raise Unsupported("unravel_index")


def np_append(a, b, axis=None):
    a, b = SA.asarray(a), SA.asarray(b)
    if axis is not None and axis != 0 or a.ndim > 1 or b.ndim > 1:
        raise Unsupported("append along an axis")
    return np_concatenate([a, b])


def np_concatenate(xs, axis=0):
    xs = [SA.asarray(x) for x in xs]
    xs = [x if x.ndim else SA.reshape(x, (1,)) for x in xs]
    nd = xs[0].ndim
    if not isinstance(axis, int):
        raise Unsupported("concatenate axis")
    if not -nd <= axis < nd:
        raise legit(ValueError("axis %s is out of bounds" % axis))
    axis %= nd
    for x in xs[1:]:
        if x.ndim != nd or not all(j == axis or SA.same_dim(p, q) for j, (p, q) in enumerate(zip(x.shape, xs[0].shape))):
            raise legit(ValueError("all the input array dimensions except for the concatenation axis must match exactly"))
    k = SA.join_kind([x.k for x in xs])
    n = 0
    parts = []
    for x in xs:
        parts.append((n, x.shape[axis], x.snap()))
        n = T.add(n, x.shape[axis])

    def at(*idx):
        i = idx[axis]
        out = None
        for lo, ln, f in reversed(parts):
            if isinstance(ln, int) and ln == 0:
                continue
            inside = True if out is None else T.lt(i, T.add(lo, ln))      # the last part also answers past the end
            if inside is False:
                continue
            if out is not None and isinstance(i, int) and isinstance(lo, int) and i < lo:
                out = None
            v = f(*(idx[:axis] + (T.sub(i, lo),) + idx[axis + 1:]))
            out = v if out is None or inside is True else T.ite(inside, v, out)
        return SA.conv(out, k)
    return SArr.make(tuple(xs[0].shape[:axis]) + (n,) + tuple(xs[0].shape[axis + 1:]), at, k)


def np_insert(a, i, v, axis=None):
    a = SA.asarray(a)
    if a.ndim != 1 and axis is None:
        a = SA.flatten(a)
    if a.ndim != 1 or not T.isnum(v):
        raise Unsupported("insert")
    n = a.shape[0]
    if T.truth(T.lt(i, 0)):
        i = T.add(i, n)
    f = a.snap()
    k = a.k
    c = SA.conv(v, k)
    def at(j):
        b, q = T.lt(j, i), T.eq(j, i)
        if isinstance(b, bool) and isinstance(q, bool):
            return f(j) if b else c if q else f(j - 1)
        return T.ite(b, f(j), T.ite(q, c, f(T.sub(j, 1))))
    return SArr.make((T.add(n, 1),), at, k)


def np_nanmin(a, axis=None):
    return SA.minmax(SA.asarray(a), "min", axis)


def np_around(x, decimals=0):
    if isinstance(x, (SArr, list, tuple)):
        return SA.map1(lambda v: np_around(v, decimals), SA.asarray(x))
    if T.kind(x) == "i":
        return x
    if decimals == 0:
        return T.to_real(T.rint_(x))
    return T.round_(x, decimals)


def np_power(a, b):
    if isinstance(a, (SArr, list)) or isinstance(b, (SArr, list)):
        return SA.elementwise(T.pow_, a, b)
    return T.pow_(a, b)


def np_multiply(a, b):
    return SA.elementwise(T.mul, a, b) if isinstance(a, (SArr, list)) or isinstance(b, (SArr, list)) else T.mul(a, b)


def np_divide(a, b):
    return SA.divide(a, b)


def op2(f, k=None):
    def g(a, b, **kw):
        if kw:
            raise Unsupported("ufunc keywords")
        if isinstance(a, (SArr, list, tuple)) or isinstance(b, (SArr, list, tuple)):
            return SA.elementwise(f, a, b, k)
        return f(a, b)
    return g


def np_sum(a, axis=None, **kw):
    if kw:
        raise Unsupported("sum keywords")
    from .interp import PGen
    if isinstance(a, PGen):
        raise Unsupported("numpy.sum of a generator")
    return SA.sum_(a, axis)


class StubModule(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s" % (self.__name__, n))


def numtype(name, k):
    from .interp import NumType, b_float, b_int, b_bool
    return NumType(name, k, {"r": b_float, "i": b_int, "b": b_bool}[k])


def build_numpy(interp):
    m = StubModule("numpy")
    d = m.__dict__
    d.update(
        ndarray=SArr, array=np_array, asarray=lambda x, dtype=None: x if isinstance(x, SArr) and dtype is None else np_array(x, dtype),
        asfarray=lambda x: np_array(x, float),
        zeros=filled(0), ones=filled(1), full=np_full, empty=np_empty, zeros_like=like(0), ones_like=like(1), empty_like=like(0),
        full_like=lambda a, v, **k: like(v)(a, **k),
        fabs=_num(lambda x: T.to_real(T.abs_(x))), absolute=_num(T.abs_), abs=_num(T.abs_), sqrt=np_sqrt, log=np_log_arr,
        log10=np_log_base(10), log2=np_log_base(2), exp=_num(lambda x: T.exp(T.to_real(x))), square=_num(lambda x: T.mul(x, x)),
        floor=_num(lambda x: T.to_real(T.floor_(x))), ceil=_num(lambda x: T.to_real(T.ceil_(x))),
        rint=_num(lambda x: T.to_real(T.rint_(x))), trunc=_num(lambda x: T.to_real(T.trunc_(x))),
        around=np_around, round=np_around, round_=np_around, sign=_num(lambda x: T.ite(T.lt(x, 0), -1, T.ite(T.lt(0, x), 1, 0))),
        sum=np_sum, add=op2(T.add), subtract=op2(T.sub), multiply=np_multiply, divide=np_divide, true_divide=np_divide,
        power=np_power, maximum=op2(T.max_), minimum=op2(T.min_), fmax=op2(T.max_), fmin=op2(T.min_),
        greater=op2(lambda a, b: T.lt(b, a), "b"), less=op2(T.lt, "b"), greater_equal=op2(lambda a, b: T.le(b, a), "b"),
        less_equal=op2(T.le, "b"), equal=op2(T.eq, "b"), not_equal=op2(lambda a, b: T.not_(T.eq(a, b)), "b"),
        logical_and=op2(T.and_, "b"), logical_or=op2(T.or_, "b"), logical_not=_num(T.not_),
        arange=np_arange, linspace=np_linspace, logspace=np_logspace, isclose=np_isclose, allclose=np_allclose,
        array_equal=np_array_equal, where=np_where, unravel_index=np_unravel_index, append=np_append,
        concatenate=np_concatenate, hstack=np_concatenate, insert=np_insert, nanmin=np_nanmin, amin=np_nanmin, min=np_nanmin,
        amax=lambda a, axis=None: SA.minmax(SA.asarray(a), "max", axis), max=lambda a, axis=None: SA.minmax(SA.asarray(a), "max", axis),
        argmin=lambda a, axis=None: SA.argminmax(a, "min", axis), argmax=lambda a, axis=None: SA.argminmax(a, "max", axis),
        take=lambda a, ix, axis=None: SA.take(a, ix, axis), any=lambda a, **k: SA.any_(a), all=lambda a, **k: SA.all_(a),
        shape=lambda a: SA.asarray(a).shape, ndim=lambda a: SA.asarray(a).ndim, size=lambda a: SA.asarray(a).size,
        copy=lambda a: SA.asarray(a).copy(), reshape=lambda a, s: SA.asarray(a).reshape(s), transpose=lambda a, ax=None: SA.transpose(SA.asarray(a), ax),
        ravel=lambda a: SA.asarray(a).ravel(), isscalar=lambda x: T.isnum(x),
        mean=lambda a: SA.asarray(a).mean(), dot=_dot, prod=_prod, clip=_clip, roll=_roll, squeeze=_squeeze, flip=_flip,
        pi=Term(T.PI, "r"), e=Term(T.E_, "r"), inf=float("inf"), nan=float("nan"), newaxis=None,
        float64=numtype("float64", "r"), float32=numtype("float32", "r"), float_=numtype("float64", "r"),
        floating=numtype("floating", "r"), int64=numtype("int64", "i"), int32=numtype("int32", "i"),
        int_=numtype("int64", "i"), integer=numtype("integer", "i"), number=numtype("number", "r"),
        bool_=numtype("bool_", "b"),
        isnan=_num(lambda x: False), isfinite=_num(lambda x: True), isinf=_num(lambda x: False),
        cumsum=_cumsum, diff=_diff, nditer=_uns("nditer"), meshgrid=_uns("meshgrid"), ndindex=_ndindex,
        nonzero=lambda a: np_where(a), count_nonzero=lambda a: SA.sum_(SA.map1(lambda v: T.ite(T.tb(v) if T.kind(v) == "b" else T.not_(T.eq(v, 0)), 1, 0), SA.asarray(a), "i")),
        seterr=lambda **k: {}, errstate=_Null, expand_dims=_expand_dims,
    )
    rnd = StubModule("numpy.random")
    rnd.__dict__["seed"] = lambda *a: None
    d["random"] = rnd
    return m


class _Null(object):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _uns(n):
    def f(*a, **k):
        raise Unsupported("numpy.%s" % n)
    return f


def _ndindex(*shape):
    import itertools
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    if not all(isinstance(s, int) for s in shape):
        raise Unsupported("ndindex of symbolic shape")
    return list(itertools.product(*[range(s) for s in shape]))


def _expand_dims(a, axis):
    a = SA.asarray(a)
    axis = axis % (a.ndim + 1)
    return a[tuple([slice(None)] * axis + [None] + [slice(None)] * (a.ndim - axis))]


def _squeeze(a, axis=None):
    a = SA.asarray(a)
    return a[tuple(0 if isinstance(d, int) and d == 1 and (axis is None or i == axis) else slice(None)
                   for i, d in enumerate(a.shape))]


def _flip(a, axis=None):
    a = SA.asarray(a)
    return a[tuple(slice(None, None, -1) if axis is None or i == axis else slice(None) for i in range(a.ndim))]


def _roll(a, sh, axis=None):
    a = SA.asarray(a)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("roll")
        axis = 0
    f, n = a.snap(), a.shape[axis]
    return SArr.make(a.shape, lambda *i: f(*(i[:axis] + (T.mod(T.sub(i[axis], sh), n),) + i[axis + 1:])), a.k)


def _clip(a, lo, hi):
    def c(v):
        if lo is not None:
            v = T.max_(v, lo)
        if hi is not None:
            v = T.min_(v, hi)
        return v
    return SA.map1(c, SA.asarray(a)) if isinstance(a, (SArr, list)) else c(a)


def _prod(a, **kw):
    a = SA.asarray(a)
    if kw or a.ndim != 1 or not isinstance(a.shape[0], int):
        raise Unsupported("prod")
    out = 1
    for i in range(a.shape[0]):
        out = T.mul(out, a.at(i))
    return out


def _dot(a, b):
    a, b = SA.asarray(a), SA.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return SA.sum_(SA.elementwise(T.mul, a, b))
    raise Unsupported("dot")


def _cumsum(a):
    a = SA.asarray(a)
    if a.ndim != 1:
        raise Unsupported("cumsum")
    f = a.snap()
    return SArr.make(a.shape, lambda i: T.mk_sum(0, T.add(i, 1), f), "r")


def _diff(a):
    a = SA.asarray(a)
    if a.ndim != 1:
        raise Unsupported("diff")
    f = a.snap()
    return SArr.make((T.sub(a.shape[0], 1),), lambda i: T.sub(f(T.add(i, 1)), f(i)), a.k)


def _m(f, dom=None):
    def g(x):
        if isinstance(x, SArr):
            raise legit(TypeError("only length-1 arrays can be converted to Python scalars"))
        if not T.isnum(x):
            raise legit(TypeError("must be real number, not %s" % type(x).__name__))
        if dom is not None and not T.truth(dom(x)):
            raise legit(ValueError("math domain error"))
        return f(T.to_real(x))
    return g


def build_math():
    m = StubModule("math")
    m.__dict__.update(
        sqrt=_m(T.sqrt, lambda x: T.le(0, x)), log=_mlog, exp=_m(T.exp), fabs=_m(T.abs_), floor=_m(T.floor_), ceil=_m(T.ceil_),
        pow=lambda a, b: T.pow_(T.to_real(a), b), factorial=_mfact, pi=Term(T.PI, "r"), e=Term(T.E_, "r"), inf=float("inf"),
        log10=_m(lambda x: np_log_base(10)(x), lambda x: T.lt(0, x)), isnan=lambda x: False, isinf=lambda x: T.is_inf(x),
        trunc=_m(T.trunc_), lgamma=_m(lambda x: Term(z3.Function("LGAMMA", T.R, T.R)(x.e), "r")),
        gamma=_m(lambda x: Term(T.FACT(T.rr(T.sub(x, 1))), "r")), hypot=lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b))),
        copysign=_uns("copysign"), isclose=_uns("math.isclose"), fsum=lambda xs: SA.sum_(SA.asarray(xs)))
    return m


def _mlog(x, base=None):
    r = _m(T.log, lambda v: T.lt(0, v))(x)
    return r if base is None else T.div(r, _mlog(base))


def _mfact(x):
    c = T.const(x)
    if c is not None:
        if c.denominator != 1 or c < 0:
            raise legit(ValueError("factorial() only accepts non-negative integral values"))
        return _math.factorial(int(c))
    raise Unsupported("factorial of a symbolic value")


class _Log(object):
    level = 30
    handlers = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None

    def __deepcopy__(self, memo):
        return self


def build_logging():
    m = types.ModuleType("logging")
    lg = _Log()
    m.getLogger = lambda *a, **k: lg
    for n in ("debug", "info", "warning", "error", "critical", "log", "basicConfig", "config", "addLevelName", "captureWarnings", "exception", "warn", "dictConfig", "fileConfig"):
        setattr(m, n, lambda *a, **k: None)
    for n, v in (("DEBUG", 10), ("INFO", 20), ("WARNING", 30), ("ERROR", 40), ("CRITICAL", 50), ("NOTSET", 0)):
        setattr(m, n, v)

    class Handler(object):
        def __init__(self, *a, **k):
            pass

        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return lambda *a, **k: None
    m.Handler = m.StreamHandler = m.FileHandler = m.NullHandler = m.Formatter = m.Filter = m.Logger = m.LoggerAdapter = Handler
    m.config = m
    return m


class Spline(object):
    """assumed contract of scipy's InterpolatedUnivariateSpline: some function of position, fixed by (x, y, k)"""
    def __init__(self, x, y, k=3, **kw):
        self.x, self.y, self.k = SA.asarray(x), SA.asarray(y), k
        self.fn = z3.Function(T.fresh_name("SPLINE"), T.R, T.R)

    def __call__(self, x, *a, **k):
        if isinstance(x, (SArr, list, tuple)):
            return SA.map1(lambda v: Term(self.fn(T.rr(v)), "r"), SA.asarray(x), "r")
        return SArr.make((), lambda: Term(self.fn(T.rr(x)), "r"), "r") if False else Term(self.fn(T.rr(x)), "r")


def modules(interp):
    np = build_numpy(interp)
    sp = StubModule("scipy")
    si = StubModule("scipy.interpolate")
    si.__dict__["InterpolatedUnivariateSpline"] = Spline
    sp.__dict__["interpolate"] = si
    lg = build_logging()
    cl = types.ModuleType("colorlog")
    cl.ColoredFormatter = lg.Handler
    cl.StreamHandler = lg.Handler
    cl.getLogger = lg.getLogger
    cl.basicConfig = lg.basicConfig
    cl.default_log_colors = {}
    abc_ = types.ModuleType("abc")
    abc_.ABCMeta = type
    abc_.ABC = object
    abc_.abstractmethod = lambda f: f
    abc_.abstractproperty = property
    out = {"numpy": np, "numpy.random": np.__dict__["random"], "scipy": sp, "scipy.interpolate": si, "math": build_math(),
           "logging": lg, "logging.config": lg, "colorlog": cl, "abc": abc_}
    from . import stubs
    for n, m in stubs.modules().items():
        out[n] = m
    w = types.ModuleType("warnings")
    w.warn = lambda *a, **k: None
    w.simplefilter = w.filterwarnings = lambda *a, **k: None
    w.catch_warnings = _Null
    out["warnings"] = w
    t = types.ModuleType("time")
    t.time = lambda: T.real_const(0)
    t.sleep = lambda *a: None
    t.strftime = lambda *a: "now"
    out["time"] = t
    return out
