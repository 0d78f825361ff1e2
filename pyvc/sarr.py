"""Symbolic numpy arrays: concrete rank, symbolic (or known) shape, content = function of the index; views write through.
The numpy functions modelled here are assumed contracts on an external library."""
import builtins
import itertools
import z3
from . import terms as T
from .terms import Term, Unsupported, EngineHook


def legit(ex):
    """mark an exception as one the modelled library would raise"""
    ex._pyvc = True
    return ex


def eng():
    return EngineHook.cur


def _key(idx):
    return tuple(i if isinstance(i, int) else i.e.get_id() for i in idx)


def memo(fn):
    cache = {}

    def f(*idx):
        k = _key(idx)
        if k not in cache:
            cache[k] = (fn(*idx), idx)
        return cache[k][0]
    return f


def same_dim(a, b):
    """are two dimensions equal (forks)"""
    if a is b:
        return True
    return T.truth(T.eq(a, b))


class Buf(object):
    __slots__ = ("shape", "fn", "k", "name")

    def __init__(self, shape, fn, k="r", name=None):
        self.shape, self.fn, self.k, self.name = tuple(shape), fn, k, name


def conv(v, k):
    """store a scalar into an array of element kind k"""
    if k == "r":
        if T.is_inf(v):
            return v
        return T.to_real(v)
    if k == "i":
        return T.trunc_(v) if T.kind(v) == "r" else (v if T.kind(v) == "i" else T.ite(v, 1, 0))
    return T.tb(v)


class SArr(object):
    """numpy.ndarray stand-in"""
    __array_priority__ = 2000

    def __init__(self, buf, shape=None, fwd=None, inv=None):
        self.buf = buf
        self._shape = tuple(buf.shape if shape is None else shape)
        self._fwd, self._inv = fwd, inv

    # -- construction
    @staticmethod
    def make(shape, fn, k="r", name=None):
        return SArr(Buf(shape, memo(fn), k, name))

    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        raise Unsupported("assignment to array.shape")

    @property
    def ndim(self):
        return len(self._shape)

    @property
    def k(self):
        return self.buf.k

    @property
    def dtype(self):
        return {"r": "float64", "i": "int64", "b": "bool"}[self.buf.k]

    @property
    def size(self):
        s = 1
        for d in self._shape:
            s = T.mul(s, d)
        return s

    @property
    def T(self):
        return transpose(self)

    @property
    def flat(self):
        raise Unsupported("array.flat")

    # -- element access
    def at(self, *idx):
        b = self._fwd(idx) if self._fwd else idx
        return self.buf.fn(*b)

    def snap(self):
        """reader of the content as it is now"""
        fn, fwd = self.buf.fn, self._fwd
        if fwd is None:
            return fn
        return lambda *idx: fn(*fwd(idx))

    def copy(self, order=None):
        return SArr(Buf(self._shape, self.snap(), self.buf.k))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo_):
        return self.copy()

    def astype(self, t, copy=True):
        k = kind_of(t)
        f = self.snap()
        return SArr.make(self._shape, lambda *i: conv(f(*i), k), k)

    def tolist(self):
        if not all(isinstance(d, int) for d in self._shape):
            raise Unsupported("tolist of symbolic shape")
        from .interp import PList
        if self.ndim == 1:
            return PList([self.at(i) for i in range(self._shape[0])])
        return PList([self[i].tolist() for i in range(self._shape[0])])

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        if not a and all(d == 1 for d in self._shape):
            return self.at(*[0] * self.ndim)
        raise Unsupported("item")

    # -- indexing
    def _view(self, key):
        """(view SArr) or scalar index tuple"""
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - n_real)
            n_real = self.ndim
        if n_real > self.ndim:
            raise legit(IndexError("too many indices for array"))
        key += [slice(None)] * (self.ndim - n_real)
        dims = []       # per source axis: ('i', index) / ('s', start, step, out axis)
        shape = []
        ax = 0
        newaxes = []
        for k in key:
            if k is None:
                newaxes.append(len(shape))
                shape.append(1)
                continue
            n = self._shape[ax]
            if isinstance(k, slice):
                start, step, ln = slice_len(k, n)
                dims.append(("s", start, step, len(shape)))
                shape.append(ln)
            else:
                k = as_index(k)
                if k is None:
                    return None
                dims.append(("i", norm_index(k, n, ax)))
            ax += 1
        base_fwd, base_inv = self._fwd, self._inv

        def fwd(idx):
            out = []
            for d in dims:
                if d[0] == "i":
                    out.append(d[1])
                else:
                    out.append(T.add(d[1], T.mul(d[2], idx[d[3]])))
            return base_fwd(tuple(out)) if base_fwd else tuple(out)

        def inv(bidx):
            cond, src = base_inv(bidx) if base_inv else (True, bidx)
            out = [0] * len(shape)
            for i, d in enumerate(dims):
                if d[0] == "i":
                    cond = T.and_(cond, T.eq(src[i], d[1]))
                else:
                    off = T.sub(src[i], d[1])
                    if d[2] == 1:
                        q = off
                    elif d[2] == -1:
                        q = T.neg(off)
                    else:
                        cond = T.and_(cond, T.eq(T.mod(off, d[2]), 0))
                        q = T.floordiv(off, d[2])
                    cond = T.and_(cond, T.le(0, q), T.lt(q, shape[d[3]]))
                    out[d[3]] = q
            return cond, tuple(out)
        return SArr(self.buf, shape, fwd, inv), len(shape)

    def __getitem__(self, key):
        if isinstance(key, SArr) or isinstance(key, (list,)) or (
                isinstance(key, tuple) and any(isinstance(k, (SArr, list)) for k in key)):
            return self._fancy(key)
        if isinstance(key, str):
            raise legit(IndexError("only integers, slices (`:`), ... are valid indices"))
        v = self._view(key)
        if v is None:
            raise legit(IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer "
                                   "or boolean arrays are valid indices"))
        v, nd = v
        if nd == 0:
            return v.at()
        return v

    def _fancy(self, key):
        if isinstance(key, tuple):
            if sum(isinstance(k, (SArr, list)) for k in key) != 1:
                raise Unsupported("several index arrays")
            p = [i for i, k in enumerate(key) if isinstance(k, (SArr, list))][0]
            if not all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i != p):
                raise Unsupported("mixed index arrays")
            ix = key[p]
        else:
            p, ix = 0, key
        ix = asarray(ix)
        if ix.k == "b":
            raise Unsupported("boolean mask")
        if ix.ndim != 1:
            raise Unsupported("index array of rank > 1")
        return take(self, ix, axis=p)

    def __setitem__(self, key, val):
        if isinstance(key, SArr) and key.k == "b":
            if key.ndim != self.ndim or isinstance(val, (SArr, list)) and asarray(val).ndim > 0:
                raise Unsupported("boolean mask assignment")
            m = key.snap()
            k = self.buf.k
            self._write(lambda *i: m(*i), lambda *i: conv(val, k))
            return
        if isinstance(key, (SArr, list)) or (isinstance(key, tuple) and any(isinstance(k, (SArr, list)) for k in key)):
            raise Unsupported("fancy assignment")
        v = self._view(key)
        if v is None:
            raise legit(IndexError("only integers, slices are valid indices"))
        v, nd = v
        v._assign(val)

    def _assign(self, val):
        """self (a view) <- val, broadcast"""
        k = self.buf.k
        if isinstance(val, (list, tuple)):
            val = asarray(val)
        if isinstance(val, SArr):
            val = broadcast_to(val, self._shape, assign=True)
            g = val.snap()
            self._write(None, lambda *i: conv(g(*i), k))
        elif T.isnum(val):
            c = conv(val, k)
            self._write(None, lambda *i: c)
        else:
            raise legit(TypeError("float() argument must be a string or a number"))

    def _write(self, mask, fn):
        old, inv = self.buf.fn, self._inv

        def new(*bidx):
            cond, idx = inv(bidx) if inv else (True, bidx)
            if mask is not None and cond is not False:
                cond = T.and_(cond, mask(*idx))
            if cond is False:
                return old(*bidx)
            if cond is True:
                return fn(*idx)
            a = fn(*idx)
            return T.ite(cond, a, old(*bidx))
        self.buf.fn = memo(new)

    # -- python protocol
    def __len__(self):
        if not self._shape:
            raise legit(TypeError("len() of unsized object"))
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported("native len() of a symbolic length")

    def __iter__(self):
        if not self._shape:
            raise legit(TypeError("iteration over a 0-d array"))
        d = self._shape[0]
        if isinstance(d, int):
            return iter([self[i] for i in range(d)])
        raise Unsupported("native iteration over a symbolic length")

    def __bool__(self):
        if all(isinstance(d, int) for d in self._shape):
            n = 1
            for d in self._shape:
                n *= d
            if n == 1:
                return T.truth(T.tb(self.at(*[0] * self.ndim)))
            raise legit(ValueError("The truth value of an array with more than one element is ambiguous. "
                                   "Use a.any() or a.all()"))
        raise Unsupported("truth of an array")

    def __contains__(self, x):
        return T.truth(any_(elementwise(T.eq, self, x, "b")))

    __hash__ = None

    def __add__(self, o): return elementwise(T.add, self, o)
    def __radd__(self, o): return elementwise(T.add, o, self)
    def __sub__(self, o): return elementwise(T.sub, self, o)
    def __rsub__(self, o): return elementwise(T.sub, o, self)
    def __mul__(self, o): return elementwise(T.mul, self, o)
    def __rmul__(self, o): return elementwise(T.mul, o, self)
    def __truediv__(self, o): return divide(self, o)
    def __rtruediv__(self, o): return divide(o, self)
    def __pow__(self, o): return elementwise(T.pow_, self, o)
    def __neg__(self): return elementwise(T.mul, -1, self)
    def __abs__(self): return map1(T.abs_, self)
    def __lt__(self, o): return elementwise(T.lt, self, o, "b")
    def __le__(self, o): return elementwise(T.le, self, o, "b")
    def __gt__(self, o): return elementwise(T.lt, o, self, "b")
    def __ge__(self, o): return elementwise(T.le, o, self, "b")
    def __eq__(self, o): return elementwise(T.eq, self, o, "b") if o is not None else False
    def __ne__(self, o): return elementwise(lambda a, b: T.not_(T.eq(a, b)), self, o, "b") if o is not None else True
    def __and__(self, o): return elementwise(T.and_, self, o, "b")
    def __or__(self, o): return elementwise(T.or_, self, o, "b")
    def __invert__(self): return map1(T.not_, self)

    def _inplace(self, r):
        if r.k == "r" and self.buf.k == "i":
            raise legit(TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')"))
        self._assign(r)
        return self

    def __iadd__(self, o): return self._inplace(elementwise(T.add, self, o))
    def __isub__(self, o): return self._inplace(elementwise(T.sub, self, o))
    def __imul__(self, o): return self._inplace(elementwise(T.mul, self, o))
    def __itruediv__(self, o): return self._inplace(divide(self, o))

    def sum(self, axis=None, **kw):
        if kw:
            raise Unsupported("sum keywords")
        return sum_(self, axis)

    def any(self): return any_(self)
    def all(self): return all_(self)
    def min(self, axis=None): return minmax(self, "min", axis)
    def max(self, axis=None): return minmax(self, "max", axis)
    def argmin(self, axis=None): return argminmax(self, "min", axis)
    def argmax(self, axis=None): return argminmax(self, "max", axis)
    def reshape(self, *s, **kw): return reshape(self, s[0] if len(s) == 1 and not isinstance(s[0], (int, Term)) else s)
    def transpose(self, *ax): return transpose(self, ax[0] if len(ax) == 1 and isinstance(ax[0], (tuple, list)) else (ax or None))
    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return transpose(self, p)
    def ravel(self): return flatten(self)
    def flatten(self): return flatten(self)
    def mean(self): return T.div(sum_(self), self.size)
    def __repr__(self): return "<array %s>" % (self._shape,)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("ndarray.%s" % n)


def kind_of(t):
    if t is None:
        return "r"
    n = t if isinstance(t, str) else getattr(t, "__name__", str(t))
    n = n.lstrip("b_")
    if n.startswith(("float", "double", "<f", "f8")):
        return "r"
    if n.startswith(("int", "uint", "long", "i8")):
        return "i"
    if n.startswith("ool") or n == "bool":
        return "b"
    raise Unsupported("dtype %r" % (t,))


def as_index(k):
    if isinstance(k, bool):
        raise Unsupported("bool index")
    if isinstance(k, int):
        return k
    if isinstance(k, Term):
        if k.k == "i":
            return k
        return None         # real index: IndexError
    if isinstance(k, float):
        return None
    if hasattr(k, "__index__"):
        return k.__index__()
    return None


def norm_index(i, n, ax=0):
    if T.truth(T.lt(i, 0)):
        j = T.add(i, n)
        if T.truth(T.lt(j, 0)):
            raise legit(IndexError("index %s is out of bounds for axis %d with size %s" % (i, ax, n)))
        return j
    if T.truth(T.le(n, i)):
        raise legit(IndexError("index %s is out of bounds for axis %d with size %s" % (i, ax, n)))
    return i


def slice_len(s, n):
    step = 1 if s.step is None else s.step
    if not isinstance(step, int):
        if isinstance(step, Term) and step.k == "i":
            raise Unsupported("symbolic slice step")
        raise legit(TypeError("slice indices must be integers or None or have an __index__ method"))
    for x in (s.start, s.stop):
        if x is not None and as_index(x) is None:
            raise legit(TypeError("slice indices must be integers or None or have an __index__ method"))
    if step == -1 and s.start is None and s.stop is None:
        return T.sub(n, 1), -1, n
    if step < 1:
        raise Unsupported("negative slice step")

    def clip(x, d):
        if x is None:
            return d
        if T.truth(T.lt(x, 0)):
            x = T.add(x, n)
            return T.max_(x, 0) if not T.truth(T.lt(x, 0)) else 0
        if T.truth(T.lt(n, x)):
            return n
        return x
    a, b = clip(s.start, 0), clip(s.stop, n)
    if T.truth(T.le(b, a)):
        return a, step, 0
    ln = T.sub(b, a)
    if step != 1:
        ln = T.floordiv(T.add(ln, step - 1), step)
    return a, step, ln


def asarray(x, k=None):
    if isinstance(x, SArr):
        return x
    if isinstance(x, (list, tuple)):
        return from_seq(x, k)
    if T.isnum(x):
        kk = k or T.kind(x)
        return SArr.make((), lambda: conv(x, kk), kk)
    if isinstance(x, range):
        return from_seq(list(x), k)
    raise Unsupported("array of %r" % type(x))


def from_seq(x, k=None):
    from .interp import PList
    if isinstance(x, PList) and x.segs is not None:
        n = x.sym_len()
        probe = None
        f = x.sym_get
        kk = k or x.elem_kind()
        return SArr.make((n,), lambda i: conv(f(i), kk), kk)
    items = list(x)
    if not items:
        return SArr.make((0,), lambda i: T.real_const(0), k or "r")
    if any(isinstance(i, (list, tuple, SArr)) for i in items):
        subs = [asarray(i, k) for i in items]
        sh = subs[0].shape
        for s in subs[1:]:
            if len(s.shape) != len(sh) or not all(same_dim(a, b) for a, b in zip(s.shape, sh)):
                raise legit(ValueError("setting an array element with a sequence. inhomogeneous shape"))
        kk = join_kind([s.k for s in subs])
        snaps = [s.snap() for s in subs]
        return SArr.make((len(items),) + sh, lambda i, *r: conv(pick(snaps, i, lambda s: s(*r)), kk), kk)
    if not all(T.isnum(i) for i in items):
        raise Unsupported("object array")
    kk = k or join_kind([T.kind(i) for i in items])
    return SArr.make((len(items),), lambda i: conv(pick(items, i, lambda s: s), kk), kk)


def pick(items, i, f):
    if isinstance(i, int):
        return f(items[i])
    out = f(items[-1])
    for j in range(len(items) - 2, -1, -1):
        out = T.ite(T.eq(i, j), f(items[j]), out)
    return out


def join_kind(ks):
    return "r" if "r" in ks else ("i" if "i" in ks else "b")


def broadcast_shapes(a, b):
    n = max(len(a), len(b))
    a = (1,) * (n - len(a)) + tuple(a)
    b = (1,) * (n - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        elif same_dim(x, y):
            out.append(x)
        elif T.truth(T.eq(x, 1)):
            out.append(y)
        elif T.truth(T.eq(y, 1)):
            out.append(x)
        else:
            raise legit(ValueError("operands could not be broadcast together with shapes %s %s" % (a, b)))
    return tuple(out)


def broadcast_to(x, shape, assign=False):
    if len(x.shape) > len(shape):
        if assign and all(isinstance(d, int) and d == 1 for d in x.shape[:len(x.shape) - len(shape)]):
            x = x[(0,) * (len(x.shape) - len(shape))]
        else:
            raise legit(ValueError("could not broadcast input array from shape %s into shape %s" % (x.shape, shape)))
    off = len(shape) - len(x.shape)
    ones = []
    for d, s in zip(x.shape, shape[off:]):
        if isinstance(d, int) and d == 1 and not (isinstance(s, int) and s == 1):
            ones.append(True)
        elif same_dim(d, s):
            ones.append(False)
        elif T.truth(T.eq(d, 1)):
            ones.append(True)
        else:
            raise legit(ValueError("could not broadcast input array from shape %s into shape %s" % (x.shape, shape)))
    f, k = x.snap(), x.k
    return SArr.make(shape, lambda *i: f(*[0 if o else j for j, o in zip(i[off:], ones)]), k)


def elementwise(op, a, b, k=None):
    for x in (a, b):
        if not isinstance(x, (SArr, list, tuple)) and not T.isnum(x):
            if x is None or isinstance(x, str):
                if op is T.eq:
                    return False
                raise legit(TypeError("unsupported operand type(s)"))
            raise Unsupported("array operation with %r" % type(x))
    a, b = asarray(a), asarray(b)
    sh = broadcast_shapes(a.shape, b.shape)
    a, b = broadcast_to(a, sh), broadcast_to(b, sh)
    f, g = a.snap(), b.snap()
    if k is None:
        k = "r" if "r" in (a.k, b.k) else "i"
    return wrap0(SArr.make(sh, lambda *i: op(f(*i), g(*i)), k))


def wrap0(x):
    return x.at() if x.ndim == 0 else x


def map1(op, a, k=None):
    if not isinstance(a, (SArr, list, tuple)):
        return op(a)
    a = asarray(a)
    f = a.snap()
    return SArr.make(a.shape, lambda *i: op(f(*i)), k or a.k)


def divide(a, b):
    a, b = asarray(a), asarray(b)
    define_all(b, lambda v: T.not_(T.eq(v, 0)), "division by zero in an array operation")
    sh = broadcast_shapes(a.shape, b.shape)
    a, b = broadcast_to(a, sh), broadcast_to(b, sh)
    f, g = a.snap(), b.snap()
    return wrap0(SArr.make(sh, lambda *i: T.div_nofork(f(*i), g(*i)), "r"))


def define_all(b, cond, what):
    """every element satisfies cond, else the path is Undefined (nan/inf appear)"""
    from .engine import Undefined
    if b.ndim == 0:
        if not T.truth(cond(b.at())):
            raise Undefined(what)
        return
    f = b.snap()
    if exists_idx(b.shape, lambda *i: T.not_(cond(f(*i)))) is not None:
        raise Undefined(what)


def exists_idx(shape, fn):
    """fork: returns an index tuple at which fn holds, or None (then fn is false everywhere)"""
    if all(isinstance(d, int) for d in shape):
        n = 1
        for d in shape:
            n *= d
        if n <= 64:
            for idx in itertools.product(*[range(d) for d in shape]):
                if T.truth(fn(*idx)):
                    return idx
            return None
    e = eng()
    # decide on a generic index whether it can hold at all
    sk = [e_fresh(e, d) for d in shape]
    rng = z3.And(*[z3.And(s.e >= 0, s.e < T.ri(d)) for s, d in zip(sk, shape)])
    c = fn(*sk)
    if c is False or (not e.feasible(z3.And(rng, T.rb(c)))):
        return None
    if e.choose(2) == 1:
        e.assume(rng)
        e.assume(c)
        if not e.feasible(z3.BoolVal(True)):
            from .engine import PathEnd
            raise PathEnd()
        return tuple(sk)
    e.assume_univ(list(shape), lambda *i: T.not_(T.tb(fn(*i))))
    return None


def e_fresh(e, d):
    return Term(z3.Int(T.fresh_name("sk")), "i")


def any_(a):
    a = asarray(a)
    f = a.snap()
    return exists_idx(a.shape, lambda *i: T.tb(f(*i))) is not None


def all_(a):
    a = asarray(a)
    f = a.snap()
    return exists_idx(a.shape, lambda *i: T.not_(T.tb(f(*i)))) is None


def sum_(a, axis=None):
    if T.isnum(a):
        return a
    a = asarray(a)
    if a.ndim == 0:
        return a.at()
    nd = a.ndim
    if axis is None:
        axes = list(range(nd))
    else:
        axes = list(axis) if isinstance(axis, (tuple, list)) else [axis]
        for x in axes:
            if isinstance(x, Term):
                raise Unsupported("symbolic axis")
            if not isinstance(x, int):
                raise legit(TypeError("'float' object cannot be interpreted as an integer"))
            if x >= nd or x < -nd:
                raise legit(_axis_error("axis %d is out of bounds for array of dimension %d" % (x, nd)))
        axes = [x % nd for x in axes]
        if len(set(axes)) != len(axes):
            raise legit(ValueError("duplicate value in 'axis'"))
    f = a.snap()
    keep = [i for i in range(nd) if i not in axes]
    sh = tuple(a.shape[i] for i in keep)
    isint = a.k in ("i", "b")

    def at(*idx):
        full = [None] * nd
        for i, x in zip(keep, idx):
            full[i] = x

        def go(j):
            if j == len(axes):
                v = f(*full)
                return T.to_real(v)
            ax = axes[j]

            def inner(k):
                full[ax] = k
                return go(j + 1)
            return T.mk_sum(0, a.shape[ax], inner)
        r = go(0)
        if isint:
            r = T.wrap_i(z3.ToInt(r.e)) if r.v is None else int(r.v)
        return r
    if not keep:
        return at()
    return SArr.make(sh, at, "i" if isint else "r")


def _axis_error(msg):
    class AxisError(ValueError, IndexError):
        pass
    return AxisError(msg)


def transpose(a, axes=None):
    nd = a.ndim
    axes = list(range(nd))[::-1] if axes is None else [x % nd for x in axes]
    base_fwd, base_inv = a._fwd, a._inv

    def fwd(idx):
        src = [None] * nd
        for i, ax in enumerate(axes):
            src[ax] = idx[i]
        return base_fwd(tuple(src)) if base_fwd else tuple(src)

    def inv(b):
        c, src = base_inv(b) if base_inv else (True, b)
        return c, tuple(src[ax] for ax in axes)
    return SArr(a.buf, [a.shape[x] for x in axes], fwd, inv)


def take(a, ix, axis=None):
    a = asarray(a)
    ix = asarray(ix)
    if axis is None:
        if a.ndim != 1:
            raise Unsupported("take of flattened array")
        axis = 0
    if not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    axis %= a.ndim
    n = a.shape[axis]
    f, g = a.snap(), ix.snap()
    if ix.k != "i":
        raise legit(TypeError("Cannot cast array data to dtype('int64') according to the rule 'safe'"))
    if exists_idx(ix.shape, lambda *i: T.or_(T.lt(g(*i), T.neg(n)), T.le(n, g(*i)))) is not None:
        raise legit(IndexError("index out of bounds"))

    def norm(v):
        return T.ite(T.lt(v, 0), T.add(v, n), v)
    if ix.ndim == 0:
        sh = a.shape[:axis] + a.shape[axis + 1:]
        v0 = norm(g())
        return wrap0(SArr.make(sh, lambda *i: f(*(i[:axis] + (v0,) + i[axis:])), a.k))
    m = ix.ndim
    sh = a.shape[:axis] + ix.shape + a.shape[axis + 1:]
    return SArr.make(sh, lambda *i: f(*(i[:axis] + (norm(g(*i[axis:axis + m])),) + i[axis + m:])), a.k)


class NpTerm(Term):
    """a numpy scalar: a number with the methods of an array without axes"""
    __slots__ = ()

    def ravel(self): return SArr.make((1,), lambda i: self, self.k)
    flatten = ravel
    def copy(self): return self


def np_scalar(t):
    return NpTerm(t._e, t.k, t.v) if isinstance(t, Term) else t


def flatten(a):
    if a.ndim == 1:
        return a.copy()
    return reshape(a, (a.size,))


def reshape(a, shape):
    if isinstance(shape, (int, Term)):
        shape = (shape,)
    shape = list(asarray(shape).tolist() if isinstance(shape, SArr) else shape)
    for s in shape:
        if as_index(s) is None:
            raise legit(TypeError("'float' object cannot be interpreted as an integer"))
    if any(isinstance(s, int) and s == -1 for s in shape):
        rest = 1
        for s in shape:
            if not (isinstance(s, int) and s == -1):
                rest = T.mul(rest, s)
        shape[[i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]] = T.floordiv(a.size, rest)
    src = list(a.shape)
    # group source axes with runs of target axes of the same product
    i = j = 0
    groups = []
    while i < len(src) or j < len(shape):
        si, sj = [], []
        if i < len(src):
            si.append(i)
            ps = src[i]
            i += 1
        else:
            ps = 1
        pj = 1
        ok = False
        for _ in range(8):
            if j < len(shape) and not sj:
                sj.append(j)
                pj = shape[j]
                j += 1
            r = prove_eq(ps, pj)
            if r:
                ok = True
                break
            more_t = j < len(shape)
            more_s = i < len(src)
            # extend the side that leads to equality
            done = False
            if more_t:
                pj2, jj = pj, j
                acc = []
                while jj < len(shape):
                    pj2 = T.mul(pj2, shape[jj])
                    acc.append(jj)
                    jj += 1
                    if prove_eq(ps, pj2):
                        sj += acc
                        j = jj
                        pj = pj2
                        done = True
                        break
            if not done and more_s:
                ps = T.mul(ps, src[i])
                si.append(i)
                i += 1
                done = True
            if not done:
                break
        if not ok and not prove_eq(ps, pj):
            tot = 1
            for s in shape:
                tot = T.mul(tot, s)
            if not T.truth(T.eq(tot, a.size)):
                raise legit(ValueError("cannot reshape array of size %s into shape %s" % (a.size, tuple(shape))))
            raise Unsupported("reshape %s -> %s" % (src, shape))
        groups.append((si, sj))
    f = a.snap()

    def at(*idx):
        full = [0] * len(src)
        for si, sj in groups:
            lin = 0
            for t in sj:
                lin = T.add(T.mul(lin, shape[t]), idx[t])
            if len(si) == 1:
                full[si[0]] = lin
            elif not si:
                pass
            else:
                rem = lin
                for s in reversed(si[1:]):
                    full[s] = T.mod(rem, src[s])
                    rem = T.floordiv(rem, src[s])
                full[si[0]] = rem
        return f(*full)
    return SArr.make(shape, at, a.k)


def prove_eq(a, b):
    c = T.eq(a, b)
    if isinstance(c, bool):
        return c
    e = eng()
    return not e.feasible(z3.Not(T.rb(c)))


def _axis_extremum(a, which, axis):
    """(remaining shape, function of the remaining indices): position of the first extremal element along an axis, as a fresh
    function with its defining facts"""
    e = eng()
    if not isinstance(axis, int):
        raise Unsupported("symbolic axis")
    if not -a.ndim <= axis < a.ndim:
        raise legit(ValueError("axis %s is out of bounds" % axis))
    axis %= a.ndim
    d = a.shape[axis]
    if T.truth(T.le(d, 0)):
        raise legit(ValueError("attempt to get argmin of an empty sequence"))
    rest = list(a.shape[:axis]) + list(a.shape[axis + 1:])
    f = a.snap()
    full = lambda i, k: tuple(i[:axis]) + (k,) + tuple(i[axis:])
    gen = [Term(z3.Int("ax!%d" % j), "i") for j in range(a.ndim)]
    key = None
    try:
        key = (which, axis, T.rr(e.under_binder(z3.Int("ax!!"), None, lambda: f(*gen))).get_id(),
               tuple(x if isinstance(x, int) else x.e.get_id() for x in a.shape))
    except Unsupported:
        pass
    cache = e.__dict__.setdefault("axis_ext", {})
    hit = cache.get(key) if key is not None else None
    am = hit[0] if hit else z3.Function(T.fresh_name("AM"), *([T.I] * (len(rest) + 1)))
    srt = {"r": T.R, "i": T.I}.get(a.k)
    if srt is None:
        raise Unsupported("extremum of truth values")
    mv = hit[3] if hit else z3.Function(T.fresh_name("MV"), *([T.I] * len(rest) + [srt]))
    pos = lambda *i: Term(am(*[T.ri(x) for x in i]), "i")
    val = lambda *i: Term(mv(*[T.ri(x) for x in i]), a.k)
    if hit is None or not any(u is hit[1] for u in e.univs):
        u = e.assume_univ(rest, lambda *i: T.and_(T.le(0, pos(*i)), T.lt(pos(*i), d), T.eq(val(*i), f(*full(i, pos(*i))))),
                          whole=True)
        better = (lambda x, m: T.lt(x, m)) if which == "min" else (lambda x, m: T.lt(m, x))

        def facts(*j):
            i, k = j[:-1], j[-1]
            x, m = f(*full(i, k)), val(*i)
            return T.and_(T.not_(better(x, m)), T.implies(T.lt(k, pos(*i)), T.not_(T.eq(x, m))))
        e.assume_univ(rest + [d], facts, whole=True)
        if key is not None:
            cache[key] = (am, u, f, mv)
    return rest, pos, val


def minmax(a, which, axis=None):
    a = asarray(a)
    if axis is not None and a.ndim > 1:
        rest, pos, val = _axis_extremum(a, which, axis)
        return SArr.make(tuple(rest), val, a.k)
    if a.ndim == 0:
        return a.at()
    if all(isinstance(d, int) for d in a.shape):
        vals = [a.at(*i) for i in itertools.product(*[range(d) for d in a.shape])]
        if not vals:
            raise legit(ValueError("zero-size array to reduction operation minimum which has no identity"))
        out = vals[0]
        for v in vals[1:]:
            out = T.min_(out, v) if which == "min" else T.max_(out, v)
        return out
    if T.truth(T.le(a.size, 0)) if a.ndim == 1 else False:
        raise legit(ValueError("zero-size array to reduction operation minimum which has no identity"))
    idx = _extremum(a, which)
    return a.at(*idx)


def _lex_less(i, j):
    """i < j lexicographically"""
    out = False
    for x, y in reversed(list(zip(i, j))):
        out = T.or_(T.lt(x, y), T.and_(T.eq(x, y), out))
    return out


def _extremum(a, which):
    """index of the first (in C order) extremal element: fresh index with its defining facts"""
    e = eng()
    sk = [Term(z3.Int(T.fresh_name("k0m")), "i") for _ in a.shape]
    for s, d in zip(sk, a.shape):
        e.assume(T.and_(T.le(0, s), T.lt(s, d)))
    f = a.snap()
    m = f(*sk)
    better = (lambda x: T.lt(x, m)) if which == "min" else (lambda x: T.lt(m, x))
    e.assume_univ(list(a.shape), lambda *i: T.and_(T.not_(better(f(*i))),
                                                   T.implies(_lex_less(i, sk), T.not_(T.eq(f(*i), m)))))
    return sk


class FlatIdx(object):
    """argmin of an array of rank > 1"""
    def __init__(self, idx, shape):
        self.idx, self.shape = tuple(idx), tuple(shape)


def argminmax(a, which, axis=None):
    a = asarray(a)
    if axis is not None and a.ndim > 1:
        rest, pos, val = _axis_extremum(a, which, axis)
        return SArr.make(tuple(rest), pos, "i")
    if all(isinstance(d, int) for d in a.shape):
        cells = list(itertools.product(*[range(d) for d in a.shape]))
        if not cells:
            raise legit(ValueError("attempt to get argmin of an empty sequence"))
        best = 0
        bv = a.at(*cells[0])
        for j, c in enumerate(cells[1:], 1):
            v = a.at(*c)
            better = T.lt(v, bv) if which == "min" else T.lt(bv, v)
            best = T.ite(better, j, best)
            bv = T.ite(better, v, bv)
        return best
    if T.truth(T.le(a.size, 0)) if a.ndim == 1 else False:
        raise legit(ValueError("attempt to get argmin of an empty sequence"))
    idx = _extremum(a, which)
    if a.ndim == 1:
        return np_scalar(idx[0])
    return FlatIdx(idx, a.shape)


def _arr_hook(o, s, op):
    if not isinstance(o, SArr):
        return None
    ops = {"r+": lambda: elementwise(T.add, s, o), "r-": lambda: elementwise(T.sub, s, o),
           "r*": lambda: elementwise(T.mul, s, o), "r/": lambda: divide(s, o),
           "r<": lambda: elementwise(T.lt, s, o, "b"), "r<=": lambda: elementwise(T.le, s, o, "b"),
           "r>": lambda: elementwise(T.lt, o, s, "b"), "r>=": lambda: elementwise(T.le, o, s, "b")}
    return ops[op]()


T._arr_hook[0] = _arr_hook
T._arr_hook[1] = (SArr,)
