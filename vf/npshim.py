"""Contract model of the NumPy subset used by the code under verification (exact real arithmetic).

Every function here is a trusted contract on NumPy; the concrete conformance runs of each harness execute the same
contracts against the real NumPy."""
import builtins
import math
import operator
from fractions import Fraction as F

import numpy as np

from . import terms as tm
from . import sym
from .sym import (BBIN, BIN, BUN, UN, SArr, SBool, SInt, SNum, SReal, Unsupported, apply_ufunc, base, bterm, fin, fixidx, joinkind,
                  kindof, matmul, mkarr, term, wrapnum)



class JMix:
    """marks the arrays that stand for jax.numpy.ndarray: not instances of numpy.ndarray, and immutable"""

    def __setitem__(self, idx, v):
        raise TypeError("JAX arrays are immutable and do not support in-place item assignment")


class _NDMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray) and not isinstance(x, JMix)

    def __subclasscheck__(cls, c):
        return issubclass(c, np.ndarray) and not issubclass(c, JMix)


class ndarray(metaclass=_NDMeta):
    """numpy.ndarray as the code under verification sees it (isinstance tests and annotations)"""

    def __class_getitem__(cls, k):
        return cls

    def __new__(cls, *a, **k):
        raise Unsupported("numpy.ndarray constructor")


newaxis = None
pi = SReal(sym.PI_T)
e = SReal(tm.const(F(repr(math.e))))
inf = SReal(tm.PINF)
Inf = infty = inf
nan = NaN = SReal(tm.NAN)


# ---------------------------------------------------------------- dtypes
class _DTMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls.real):
            return True
        if cls.kind_ == "g":
            return isinstance(x, SNum) and not isinstance(x, SInt)
        if cls.kind_ == "f":
            return isinstance(x, SReal)
        if cls.kind_ == "n":
            return isinstance(x, SNum)
        if cls.kind_ == "b":
            return isinstance(x, SBool)
        return False

    def __call__(cls, x=0):
        if cls.kind_ in "gn":
            raise TypeError("cannot create instances of abstract numpy scalar type")
        return cast(x if isinstance(x, (np.ndarray, list, tuple)) else x, cls.kind_)

    def __eq__(cls, o):
        if cls is o:
            return True
        try:
            return cls.kind_ not in "gn" and kind(o) == cls.kind_
        except (TypeError, Unsupported):
            return False

    def __ne__(cls, o):
        return not cls == o

    def __hash__(cls):
        return hash(cls.kind_)


def _dt(name_, k, realt):
    return _DTMeta(name_, (), {"kind_": k, "real": realt, "name": name_, "kind": k[0], "type": None})


float64 = _dt("float64", "f", np.float64)
double = float_ = float64
float32 = _dt("float32", "f32", np.float32)
single = float32
int64 = _dt("int64", "i", np.integer)
int32 = _dt("int32", "i", np.integer)
int_ = intp = int64
bool_ = _dt("bool", "b", np.bool_)
object_ = _dt("object", "o", ())
floating = _dt("floating", "g", np.floating)
number = _dt("number", "n", np.number)
integer = _dt("integer", "i", np.integer)
generic = number


def dtype_of(k):
    return {"f": float64, "f32": float32, "i": int64, "b": bool_, "o": object_}[k]


def kind(dt):
    if dt is None:
        return "f"
    if isinstance(dt, _DTMeta):
        if dt.kind_ in "gn":
            raise Unsupported("abstract dtype")
        return dt.kind_
    if dt is float or getattr(dt, "_vf_float", False):
        return "f"
    if dt is int or getattr(dt, "_vf_int", False):
        return "i"
    if dt is bool:
        return "b"
    if dt is object:
        return "o"
    if isinstance(dt, str):
        dt = np.dtype(dt)
    if isinstance(dt, type) and issubclass(dt, np.generic):
        dt = np.dtype(dt)
    if isinstance(dt, np.dtype):
        if dt == np.float64:
            return "f"
        if dt == np.float32:
            return "f32"
        if dt.kind in "iu":
            return "i"
        if dt.kind == "b":
            return "b"
        if dt.kind == "O":
            return "o"
    raise Unsupported("dtype %r" % (dt,))


def dtype(x):
    return dtype_of(kind(x))


class _Finfo:
    def __init__(self, k):
        fi = np.finfo(np.float32 if k == "f32" else np.float64)
        self.max = SReal(tm.const(F(float(fi.max))))
        self.min = SReal(tm.const(F(float(fi.min))))
        self.eps = SReal(tm.const(F(float(fi.eps))))
        self.tiny = SReal(tm.const(F(float(fi.tiny))))


def finfo(dt=None):
    return _Finfo(kind(dt))


def cast_el(x, k):
    if k[0] == "f":
        return wrapnum(x)
    if k == "i":
        if isinstance(x, SReal):
            t = x.__trunc__().t
            return int(t.a) if t.k == "c" else SInt(t)
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return SInt(term(x))
        return int(x)
    if k == "b":
        b = bterm(x)
        return SBool(b)
    return x


def cast(a, k):
    if isinstance(a, (list, tuple)):
        a = array(a)
    if not isinstance(a, np.ndarray):
        return cast_el(a, k)
    if isinstance(a, SArr) and a.sk == k:
        return a
    if isinstance(a, VArr):
        return varr(cast(a.plain(), k))
    b = base(a)
    o = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        o[i] = cast_el(b[i], k)
    if b.ndim == 0:
        return o.item() if False else fin0(o, k)
    r = o.view(SArr)
    r.sk = k
    return r


def fin0(o, k):
    r = o.view(SArr)
    r.sk = k
    return r


# ---------------------------------------------------------------- symbolic length vectors
class VArr(SArr):
    """vector of symbolic length: stores its value at one arbitrary (generic) index; element-wise code only"""

    def plain(self):
        r = np.ndarray.view(self, np.ndarray).view(SArr)
        r.sk = self.sk
        return r

    @property
    def shape(self):
        return (VLEN,)

    @property
    def size(self):
        return VLEN

    def __len__(self):
        raise Unsupported("length of a symbolic-length array")

    def __iter__(self):
        raise Unsupported("iteration over a symbolic-length array")

    def __getitem__(self, idx):
        if idx is Ellipsis or (isinstance(idx, slice) and idx == slice(None)):
            return np.ndarray.__getitem__(self, idx)
        raise Unsupported("indexing a symbolic-length array")

    def __setitem__(self, idx, v):
        if idx is Ellipsis or (isinstance(idx, slice) and idx == slice(None)):
            if isinstance(v, VArr):
                v = v.plain()
            return SArr.__setitem__(self, slice(None), v)
        if isinstance(idx, VArr) and idx.sk == "b" and not isinstance(v, np.ndarray):
            c = bterm(idx.el())
            np.ndarray.__setitem__(self, slice(None), SReal(tm.ite(c, term(cast_el(v, self.sk)), term(self.el()))))
            return
        raise Unsupported("element write into a symbolic-length array")

    def el(self):
        return np.ndarray.__getitem__(np.ndarray.view(self, np.ndarray), 0)

    def tolist(self):
        raise Unsupported("tolist of a symbolic-length array")


class JArr(JMix, SArr):
    """jax array"""


class JVArr(JMix, VArr):
    """jax array of symbolic length"""


def jarr(x):
    """a jax array with the elements of x (in-place operators rebind, as on immutable arrays)"""
    if isinstance(x, VArr):
        r = varr(x.plain().copy(), x.sk)
        return np.ndarray.view(r, JVArr)
    r = np.ndarray.view(array(x), JArr)
    return r


def _jop(op):
    def f(self, o):
        return op(self, o)
    return f


for _n, _o in (("__iadd__", operator.add), ("__isub__", operator.sub), ("__imul__", operator.mul), ("__itruediv__", operator.truediv)):
    setattr(JMix, _n, _jop(_o))

VLEN = SInt(tm.var("n@len", "I"))


def varr(x, k=None):
    if not isinstance(x, np.ndarray):
        o = np.empty(1, dtype=object)
        o[0] = x
        x = o
    r = np.ndarray.view(x, np.ndarray).reshape(1).view(VArr)
    r.sk = k or kindof(r.el())
    return r


class GMat:
    """a matrix of symbolic size, known only through its products with vectors: product(content, vector) is an unknown vector,
    the same whenever content and vector are the same"""
    _vf_shaped = True
    ndim = 2

    def __init__(self, name, rows, cols, of=None):
        self.name, self.shape, self.of = name, (rows, cols), () if of is None else (term(of.el()),)

    def copy(self):
        r = GMat(self.name, *self.shape)
        r.of = self.of
        return r

    def __len__(self):
        raise Unsupported("length of a matrix of symbolic size")

    def overwritten(self):
        self.name = self.name + "'"

    def __matmul__(self, v):
        if not isinstance(v, VArr):
            raise Unsupported("product of a matrix of symbolic size")
        return varr(SReal(tm.fn(self.name + "@", *self.of, term(v.el()))))

    def dot(self, v):
        return self @ v

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s of a matrix of symbolic size" % n)

    def _no(self, *a):
        raise Unsupported("arithmetic on a matrix of symbolic size")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = __truediv__ = __getitem__ = __setitem__ = __iter__ = __rmatmul__ = __eq__ = _no
    __hash__ = None


def _gen(*xs):
    return builtins.any(isinstance(x, VArr) for x in xs)


# ---------------------------------------------------------------- creation
def _flat_kind(o):
    return joinkind(*[kindof(x) for x in o.reshape(-1)]) if o.size else "f"


def array(obj, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if isinstance(obj, GMat):
        return obj.copy()
    if isinstance(obj, VArr):
        r = varr(obj.plain().copy(), obj.sk)
        return r if dtype is None else varr(cast(r.plain(), kind(dtype)))
    if isinstance(obj, np.ndarray):
        k = kindof(obj)
        b = np.array(base(obj), dtype=object)
        if b.ndim == 0 and not isinstance(b, np.ndarray):
            b = np.empty((), dtype=object)
            b[()] = obj.item()
    else:
        b, k = _build(obj)
    if dtype is None and k == "o" and builtins.all(x is None or kindof(x) != "o" for x in b.reshape(-1)):
        pass
    r = b.view(SArr)
    r.sk = k
    if dtype is not None:
        k2 = kind(dtype)
        o = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape):
            o[i] = cast_el(b[i], k2)
        r = o.view(SArr)
        r.sk = k2
    elif k[0] == "f":
        o = np.empty(b.shape, dtype=object)
        for i in np.ndindex(*b.shape):
            o[i] = wrapnum(b[i])
        r = o.view(SArr)
        r.sk = k
    while r.ndim < ndmin:
        r = r[None]
    return r


def _build(obj):
    if isinstance(obj, (list, tuple, range)) or type(obj).__name__ in ("dict_values", "generator", "map"):
        if not isinstance(obj, (list, tuple, range)):
            o = np.empty((), dtype=object)
            o[()] = obj
            return o, "o"
        parts = [_build(x) for x in obj]
        if not parts:
            return np.empty((0,), dtype=object), "f"
        shp = parts[0][0].shape
        for p, _ in parts:
            if p.shape != shp:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        o = np.empty((len(parts),) + shp, dtype=object)
        for i, (p, _) in enumerate(parts):
            o[i] = p if shp else p.item()
        return o, joinkind(*[k for _, k in parts])
    if isinstance(obj, VArr):
        raise Unsupported("nesting symbolic-length arrays")
    if isinstance(obj, np.ndarray):
        return base(obj), kindof(obj)
    o = np.empty((), dtype=object)
    o[()] = obj
    k = kindof(obj)
    if obj is None:
        k = "f"
    return o, k


def asarray(a, dtype=None):
    if isinstance(a, GMat):
        return a
    if isinstance(a, SArr) and (dtype is None or kind(dtype) == a.sk):
        return a
    return array(a, dtype=dtype)


ascontiguousarray = asanyarray = asarray


def atleast_1d(a):
    a = asarray(a)
    return a.reshape(1) if a.ndim == 0 else a


class _Matrix(SArr):
    def _no(self, *a):
        raise Unsupported("np.matrix arithmetic")
    __mul__ = __rmul__ = __matmul__ = __rmatmul__ = __pow__ = _no


def matrix(obj, dtype=None, copy=True):
    r = array(obj, dtype=dtype)
    if r.ndim == 1:
        r = r.reshape(1, -1)
    m = r.view(_Matrix)
    m.sk = r.sk
    return m


def _shape(s):
    if isinstance(s, (int, SInt, np.integer)):
        s = (s,)
    out = []
    for x in s:
        if x is VLEN or (isinstance(x, SInt) and x.t.k != "c"):
            return VLEN
        out.append(x.__index__())
    return tuple(out)


def full(shape, fill_value, dtype=None):
    s = _shape(shape)
    k = kind(dtype) if dtype is not None else kindof(fill_value)
    v = cast_el(fill_value, k)
    if s is VLEN:
        return varr(v, k)
    o = np.empty(s, dtype=object)
    o.fill(v)
    r = o.view(SArr)
    r.sk = k
    return r


def zeros(shape, dtype=None, order="C"):
    return full(shape, 0, dtype=dtype if dtype is not None else float64)


def ones(shape, dtype=None, order="C"):
    return full(shape, 1, dtype=dtype if dtype is not None else float64)


def empty(shape, dtype=None):
    s = _shape(shape)
    if s is VLEN:
        raise Unsupported("np.empty of symbolic length")
    k = kind(dtype)
    r = zeros(s, dtype)
    for i in np.ndindex(*s):
        np.ndarray.__setitem__(r, i, cast_el(SReal(tm.var("uninit!%d" % sym.E.cur.fresh_id())), k))
    return r


def zeros_like(a, dtype=None):
    if isinstance(a, VArr):
        return varr(cast_el(0, kind(dtype) if dtype is not None else a.sk))
    a = asarray(a)
    return full(a.shape, 0, dtype=dtype if dtype is not None else dtype_of(a.sk))


def ones_like(a, dtype=None):
    if isinstance(a, VArr):
        return varr(cast_el(1, kind(dtype) if dtype is not None else a.sk))
    a = asarray(a)
    return full(a.shape, 1, dtype=dtype if dtype is not None else dtype_of(a.sk))


def full_like(a, v, dtype=None):
    if isinstance(a, VArr):
        return varr(cast_el(v, a.sk))
    a = asarray(a)
    return full(a.shape, v, dtype=dtype if dtype is not None else dtype_of(a.sk))


empty_like = zeros_like


def eye(n, m=None, k=0, dtype=None):
    if k:
        raise Unsupported("eye offset")
    r = zeros((n, m or n), dtype)
    for i in range(builtins.min(r.shape)):
        r[i, i] = 1
    return r


def identity(n, dtype=None):
    return eye(n, dtype=dtype)


def diag(v, k=0):
    v = asarray(v)
    if k:
        if v.ndim != 1:
            return mkarr(np.diag(base(v), k).copy(), v.sk)
        r = zeros((len(v) + builtins.abs(k),) * 2, dtype_of(v.sk))
        for i in range(len(v)):
            r[(i, i + k) if k > 0 else (i - k, i)] = v[i]
        return r
    if v.ndim == 1:
        r = zeros((len(v), len(v)), dtype_of(v.sk))
        for i in range(len(v)):
            r[i, i] = v[i]
        return r
    return mkarr(np.diag(base(v)).copy(), v.sk)


def arange(*a, dtype=None):
    if builtins.all(isinstance(x, int) for x in a):
        return array(list(range(*a)), dtype=dtype)
    raise Unsupported("arange of non integers")


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    if isinstance(num, SInt) and num.t.k != "c" and sym.E.cur.gidx is not None and not retstep:
        from . import gen
        a, b = SReal(term(start)), SReal(term(stop))
        last = tm.sub(num.t, tm.ONE)
        d = last if endpoint else num.t

        def at(p):
            if endpoint and p is last:
                return b          # numpy returns the end point itself
            return a if p is tm.ZERO else a + (b - a) * SReal(p) / SReal(d)
        return gen.Seq(num, at, True)
    n = num.__index__()
    a, b = SReal(term(start)), SReal(term(stop))
    d = n - 1 if endpoint else n
    vals = [a + (b - a) * F(i, d) if d else a for i in range(n)]
    return array(vals, dtype=float64) if vals else zeros((0,))


def copy(a, **k):
    if hasattr(a, "_vf_shaped"):
        return a.copy()
    return array(a)


def reshape(a, s):
    return asarray(a).reshape(s)


def ravel(a):
    return asarray(a).reshape(-1)


def transpose(a, *x):
    return asarray(a).transpose(*x)


def squeeze(a):
    return asarray(a).squeeze()


def _cat(f):
    def g(seq, *a, **k):
        dt = k.pop("dtype", None)
        xs = [asarray(x) for x in seq]
        if _gen(*xs):
            raise Unsupported("concatenating symbolic-length arrays")
        kd = joinkind(*[x.sk for x in xs])
        r = mkarr(f([base(cast(x, kd)) for x in xs], *a, **k), kd)
        return cast(r, kind(dt)) if dt is not None else r
    return g


vstack = _cat(np.vstack)
hstack = _cat(np.hstack)
stack = _cat(np.stack)
concatenate = _cat(np.concatenate)
column_stack = _cat(np.column_stack)
block = None


def block(rows):  # noqa: F811
    if isinstance(rows, (list, tuple)) and rows and isinstance(rows[0], (list, tuple)):
        return concatenate([block(list(r)) for r in rows], axis=0)
    return concatenate([asarray(x) for x in rows], axis=-1)


def append(a, v, axis=None):
    if axis is None:
        return concatenate([ravel(a), ravel(v)])
    return concatenate([a, v], axis=axis)


def insert(arr, obj, values, axis=None):
    arr = asarray(arr)
    vals = values
    k = kindof(arr)
    v = base(asarray(vals))
    v = v if v.ndim else v.item()
    b = np.insert(base(arr), obj, v if not isinstance(v, np.ndarray) else v, axis=axis)
    o = np.empty(b.shape, dtype=object)
    for i in np.ndindex(*b.shape):
        o[i] = cast_el(b[i], k)
    return mkarr(o, k)


def delete(arr, obj, axis=None):
    return mkarr(np.delete(base(arr), obj, axis=axis), kindof(arr))


def roll(a, shift, axis=None):
    return mkarr(np.roll(base(a), shift, axis=axis), kindof(a))


def flip(a, axis=None):
    return mkarr(np.flip(base(a), axis=axis), kindof(a))


def broadcast_to(a, shape):
    s = _shape(shape)
    if s is VLEN:
        if isinstance(a, VArr):
            return a
        return varr(asarray(a).item(), kindof(a))
    return mkarr(np.broadcast_to(base(asarray(a)), s), kindof(a))


def tile(a, r):
    return mkarr(np.tile(base(asarray(a)), r), kindof(a))


def repeat(a, r, axis=None):
    return mkarr(np.repeat(base(asarray(a)), r, axis=axis), kindof(a))


def _struct(name):
    """functions that only rearrange elements: NumPy's own, applied to the elements"""
    f = getattr(np, name)

    def g(a, *x, **k):
        if isinstance(a, VArr):
            raise Unsupported(name + " of a symbolic-length array")
        a = asarray(a)
        r = f(base(a), *[fixidx(y) for y in x], **{q: fixidx(y) for q, y in k.items()})
        return [mkarr(y, a.sk) for y in r] if isinstance(r, list) else mkarr(r, a.sk) if isinstance(r, np.ndarray) else r
    g.__name__ = name
    return g


for _n in ("diagonal", "expand_dims", "swapaxes", "moveaxis", "rot90", "fliplr", "flipud", "split", "array_split", "hsplit", "vsplit", "take", "atleast_2d", "rollaxis"):
    globals()[_n] = _struct(_n)
row_stack = _cat(np.row_stack) if hasattr(np, "row_stack") else vstack


def diagflat(v):
    return diag(ravel(v))


def triu(a, k=0):
    a = asarray(a)
    m = np.triu(np.ones(a.shape), k)
    return mkarr(np.where(m != 0, base(a), cast_el(0, a.sk)), a.sk)


def tril(a, k=0):
    a = asarray(a)
    m = np.tril(np.ones(a.shape), k)
    return mkarr(np.where(m != 0, base(a), cast_el(0, a.sk)), a.sk)


def iterable(x):
    return np.iterable(x)


def vdot(a, b):
    return dot(ravel(a), ravel(b))


def kron(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return concatenate([x * b for x in a])
    a, b = atleast_2d(a), atleast_2d(b)  # noqa: F821
    return block([[a[i, j] * b for j in range(a.shape[1])] for i in range(a.shape[0])])


def cumsum(a, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
    return mkarr(np.add.accumulate(base(a), axis=axis or 0), "i" if a.sk == "b" else a.sk)


def cumprod(a, axis=None):
    a = asarray(a)
    if axis is None:
        a = a.reshape(-1)
    return mkarr(np.multiply.accumulate(base(a), axis=axis or 0), "i" if a.sk == "b" else a.sk)


def diff(a, n=1, axis=-1):
    a = asarray(a)
    for _ in range(n):
        b = np.moveaxis(base(a), axis, 0)
        a = mkarr(np.moveaxis(b[1:] - b[:-1], 0, axis), a.sk)
    return a


def polyval(p, x):
    y = zeros_like(x) if isinstance(x, np.ndarray) else 0
    for c in asarray(p):
        y = y * x + c
    return y


def count_nonzero(a, axis=None):
    r = apply_ufunc("not_equal", [asarray(a), 0]) if kindof(asarray(a)) != "b" else asarray(a)
    return sum(cast(r, "i"), axis=axis)


def nonzero(a):
    a = asarray(a)
    m = np.array([bool(x) if isinstance(x, (SBool, bool)) else bool(x != 0) for x in base(a).reshape(-1)], dtype=bool).reshape(a.shape)
    return tuple(array(list(x), dtype=int64) for x in np.nonzero(m))


def flatnonzero(a):
    return nonzero(ravel(a))[0]


def argwhere(a):
    return transpose(array([list(x) for x in nonzero(a)], dtype=int64))


def select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = where(c, v, r)
    return r


def searchsorted(a, v, side="left"):
    xs = list(asarray(a).reshape(-1))

    def one(y):
        r = tm.ZERO
        for x in xs:
            c = tm.lt(term(x), term(y)) if side == "left" else tm.le(term(x), term(y))
            r = tm.add(r, tm.ite(c, tm.ONE, tm.ZERO))
        return SInt(r)
    if sym.isnum(v):
        return one(v)
    return mkarr(np.frompyfunc(one, 1, 1)(base(asarray(v))), "i")


def digitize(x, bins, right=False):
    return searchsorted(bins, x, "left" if right else "right")


def ptp(a, axis=None):
    return max(a, axis=axis) - min(a, axis=axis)


def shape(a):
    return asarray(a).shape


def size(a):
    return asarray(a).size


def ndim(a):
    return asarray(a).ndim


# ---------------------------------------------------------------- ufuncs
def _out(out, r):
    ko, kr = kindof(out)[0], kindof(r)[0]
    if ko in "bi" and kr == "f" or ko == "b" and kr == "i":
        raise TypeError("Cannot cast ufunc output with casting rule 'same_kind'")
    out[...] = r
    return out


def _u(name):
    def f(*a, out=None, where=True, dtype=None, **k):
        if where is not True:
            raise Unsupported("ufunc where=")
        r = apply_ufunc(name, [array(x) if isinstance(x, (list, tuple)) else x for x in a])
        if dtype is not None:
            r = cast(r, kind(dtype))
        if out is not None:
            return _out(out, r)
        return r
    f.__name__ = name

    def reduce(a, axis=0, **k):
        if name not in _REDUCE:
            raise Unsupported("%s.reduce" % name)
        return globals()[_REDUCE[name]](a, axis=axis, **k)

    def outer(a, b, **k):
        a, b = asarray(a), asarray(b)
        return f(a.reshape(a.shape + (1,) * b.ndim), b, **k)

    def accumulate(a, axis=0, **k):
        if name not in ("add", "multiply") or k:
            raise Unsupported("%s.accumulate" % name)
        return (cumsum if name == "add" else cumprod)(a, axis=axis)
    f.reduce, f.outer, f.accumulate = reduce, outer, accumulate
    return f


_REDUCE = {"add": "sum", "multiply": "prod", "minimum": "min", "maximum": "max", "logical_and": "all", "logical_or": "any"}
for _n in list(BIN) + list(BBIN) + list(UN) + list(BUN):
    globals()[_n] = _u(_n)
abs = globals()["absolute"]  # noqa: A001
pow = globals()["power"]  # noqa: A001
arctan2 = globals()["arctan2"]


def clip(a, a_min=None, a_max=None, out=None, **k):
    if "min" in k:
        a_min = k["min"]
    if "max" in k:
        a_max = k["max"]
    if a_min is None and a_max is None:
        raise ValueError("One of max or min must be given")
    ins = [array(x) if isinstance(x, (list, tuple)) else x for x in (a, a_min, a_max)]
    gen = _gen(*ins)
    if gen:
        for x in ins:
            if isinstance(x, np.ndarray) and x.ndim and not isinstance(x, VArr):
                raise Unsupported("symbolic-length array combined with a fixed-length array")
        ins = [x.plain() if isinstance(x, VArr) else x for x in ins]
    kk = joinkind(*[kindof(x) for x in ins if x is not None])
    # None bounds are passed through as None objects
    pf = sym._pf("clip", sym._clip_el, 3)
    r = pf(*[base(x) if isinstance(x, np.ndarray) else x for x in ins])
    if kk[0] in "bi":
        kk = "i"
    if isinstance(r, np.ndarray):
        r = fin(r, kk)
    if gen:
        r = varr(r, kk)
    if out is not None:
        return _out(out, r)
    return r


def where(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = [array(v) if isinstance(v, (list, tuple)) else v for v in xy]
    if isinstance(c, (list, tuple)):
        c = array(c)

    def f(b, p, q):
        return SReal(tm.ite(bterm(b), term(p), term(q))) if not (isinstance(p, SBool) or isinstance(q, SBool)) else \
            SBool(tm.bite(bterm(b), bterm(p), bterm(q)))
    k = joinkind(kindof(x), kindof(y))
    gen = _gen(c, x, y)
    ins = [c, x, y]
    if gen:
        for v in ins:
            if isinstance(v, np.ndarray) and v.ndim and not isinstance(v, VArr):
                raise Unsupported("symbolic-length array combined with a fixed-length array")
        ins = [v.plain() if isinstance(v, VArr) else v for v in ins]
    r = np.frompyfunc(f, 3, 1)(*[base(v) if isinstance(v, np.ndarray) else v for v in ins])
    if gen:
        return varr(r, k)
    if isinstance(r, np.ndarray):
        return fin(r, k)
    o = np.empty((), dtype=object)
    o[()] = r
    return fin0(o, k)


# ---------------------------------------------------------------- reductions
def _red(f, unit, boolean=False):
    def g(a, axis=None, **k):
        if k.get("keepdims") or k.get("out") is not None or k.get("initial") is not None or k.get("where") is not None:
            raise Unsupported("reduction options")
        if isinstance(a, VArr):
            if boolean and axis in (None, 0):
                return sym.E.cur.quantify(f, a.el())
            raise Unsupported("reduction over a symbolic-length array")
        a = asarray(a)
        b = base(a)
        if axis is None:
            r = unit() if unit else None
            for i, x in enumerate(b.reshape(-1)):
                r = x if (unit is None and i == 0) else f(r, x)
            if r is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return r
        bb = np.moveaxis(b, axis, 0)
        if bb.ndim == 1:
            return g(a)
        out = np.empty(bb.shape[1:], dtype=object)
        for idx in np.ndindex(*bb.shape[1:]):
            out[idx] = g(mkarr(bb[(slice(None),) + idx].copy(), a.sk))
        return mkarr(out, "b" if boolean else a.sk)
    return g


def _or(a, b):
    return SBool(tm.or_(bterm(a), bterm(b)))


def _and(a, b):
    return SBool(tm.and_(bterm(a), bterm(b)))


any = _red(_or, lambda: SBool(tm.FALSE), True)  # noqa: A001
all = _red(_and, lambda: SBool(tm.TRUE), True)  # noqa: A001
any.__name__ = "any"
sum = _red(lambda a, b: a + b, lambda: 0)  # noqa: A001
prod = _red(lambda a, b: a * b, lambda: 1)
max = amax = _red(lambda a, b: BIN["maximum"](a, b), None)  # noqa: A001
min = amin = _red(lambda a, b: BIN["minimum"](a, b), None)  # noqa: A001


def mean(a, axis=None):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return sum(a, axis=axis) / SReal(tm.const(n))


def _arg(op):
    def g(a, axis=None):
        a = asarray(a)
        if isinstance(a, VArr) or (a.ndim > 1 and axis is not None):
            raise Unsupported("argmax")
        xs = list(base(a).reshape(-1))
        if not xs:
            raise ValueError("attempt to get argmax of an empty sequence")
        best, k = xs[0], tm.ZERO
        for i, x in enumerate(xs[1:], 1):
            c = tm.lt(term(best), term(x)) if op == "max" else tm.lt(term(x), term(best))
            best, k = SReal(tm.ite(c, term(x), term(best))), tm.ite(c, tm.const(i), k)
        return SInt(k)
    return g


argmax, argmin = _arg("max"), _arg("min")


def _round1(x, d=0):
    """nearest multiple of 10**-d, ties to even"""
    y = tm.mul(term(x), tm.const(F(10) ** d))
    r = tm.floor(tm.add(y, tm.const(F(1, 2))))
    tie = tm.and_(tm.eq(tm.add(y, tm.const(F(1, 2))), r), tm.eq(tm.mod(r, tm.const(2)), tm.ONE))
    return SReal(tm.mul(tm.ite(tie, tm.sub(r, tm.ONE), r), tm.const(F(1) / F(10) ** d)))


def _each(f, *xs, k="f"):
    """f applied to every element of the broadcast arguments"""
    ins = [array(x) if isinstance(x, (list, tuple)) else x for x in xs]
    if not builtins.any(isinstance(x, np.ndarray) for x in ins):
        return f(*ins)
    if _gen(*ins):
        if builtins.any(isinstance(x, np.ndarray) and x.ndim and not isinstance(x, VArr) for x in ins):
            raise Unsupported("symbolic-length array combined with a fixed-length array")
        return varr(f(*[x.el() if isinstance(x, VArr) else (x.item() if isinstance(x, np.ndarray) else x) for x in ins]), k)
    return mkarr(np.frompyfunc(f, len(ins), 1)(*[base(x) if isinstance(x, np.ndarray) else x for x in ins]), k)


def round(a, decimals=0, out=None):  # noqa: A001
    if isinstance(a, np.ndarray) and a.sk[0] in "bi":
        raise Unsupported("round of integers")
    r = _each(lambda x: _round1(x, decimals), a)
    if out is not None:
        return _out(out, r)
    return r


def rint(a):
    return round(a)


def copysign(a, b):
    """signed zeros are not told apart from zero: the sign of a zero second argument is taken as positive"""
    return _each(lambda x, y: SReal(tm.mul(term(builtins.abs(x)), tm.ite(tm.lt(term(y), tm.ZERO), tm.const(-1), tm.ONE))), a, b)


def heaviside(a, h):
    return _each(lambda x, y: SReal(tm.ite(tm.lt(term(x), tm.ZERO), tm.ZERO, tm.ite(tm.lt(tm.ZERO, term(x)), tm.ONE, term(y)))), a, h)


def fmod(a, b):
    def one(x, y):
        from . import shims
        q = shims.div(x, y)
        return x - y * SReal(tm.ite(tm.lt(term(q), tm.ZERO), tm.neg(tm.floor(tm.neg(term(q)))), tm.floor(term(q))))
    return _each(one, a, b)


def var(a, axis=None, ddof=0):
    if axis is not None:
        raise Unsupported("var with an axis")
    a = asarray(a).reshape(-1)
    d = a - mean(a)
    return sum(d * d) / SReal(tm.const(a.size - ddof))


def std(a, axis=None, ddof=0):
    return sqrt(var(a, axis, ddof))  # noqa: F821


def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    if axis is not None:
        raise Unsupported("average with an axis")
    w = asarray(weights)
    return sum(asarray(a) * w) / sum(w)


def isreal(a):
    return asarray(a) == asarray(a)


def array_equiv(a, b):
    a, b = asarray(a), asarray(b)
    try:
        np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        return False
    return all(a == b)


def issubdtype(a, b):
    names = {"f": ("floating", "number", "generic", "inexact", "float64", "float"), "i": ("integer", "signedinteger", "number", "generic", "int64", "int"), "b": ("bool", "bool_", "generic")}
    k = a if isinstance(a, str) else kind(a)
    if k[0] not in names or k == "f32":
        raise Unsupported("issubdtype")
    return getattr(b, "__name__", str(b)) in names[k[0]]


def copyto(dst, src, casting="same_kind", where=True):
    if where is not True:
        raise Unsupported("copyto where=")
    dst[...] = array(src) if isinstance(src, (list, tuple)) else src


def fromiter(it, dtype=None, count=-1):
    xs = list(it)
    if count >= 0:
        if len(xs) < count:
            raise ValueError("iterator too short")
        xs = xs[:count]
    return array(xs, dtype=dtype)


class _R:
    def __getitem__(self, xs):
        xs = xs if isinstance(xs, tuple) else (xs,)
        if builtins.any(isinstance(x, (str, slice)) or isinstance(x, np.ndarray) and x.ndim > 1 for x in xs):
            raise Unsupported("numpy.r_ of slices or matrices")
        return concatenate([x if isinstance(x, np.ndarray) and x.ndim else array([x]) if not isinstance(x, (list, tuple)) else array(x) for x in xs])


class _C:
    def __getitem__(self, xs):
        xs = xs if isinstance(xs, tuple) else (xs,)
        if builtins.any(isinstance(x, (str, slice)) for x in xs):
            raise Unsupported("numpy.c_ of slices")
        return column_stack([array(x) if isinstance(x, (list, tuple)) else x for x in xs])


r_, c_ = _R(), _C()


def ix_(*xs):
    return tuple(np.ix_(*[[int(i) for i in x] for x in xs]))


around = round_ = round


def dot(a, b, out=None):
    if isinstance(a, GMat):
        return a @ b
    a, b = [x if sym.isnum(x) else asarray(x) for x in (a, b)]
    if sym.isnum(a) or sym.isnum(b) or a.ndim == 0 or b.ndim == 0:
        return apply_ufunc("multiply", [a, b])
    return matmul(a, b)


def inner(a, b):
    return dot(a, b)


def outer(a, b):
    a, b = ravel(a), ravel(b)
    return apply_ufunc("multiply", [a.reshape(-1, 1), b.reshape(1, -1)])


def cross(a, b):
    a, b = asarray(a), asarray(b)
    if a.shape != (3,) or b.shape != (3,):
        raise Unsupported("cross of non 3-vectors")
    return array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def trace(a, *x):
    return sum(diag(asarray(a)))


def einsum(spec, *ops):
    spec = spec.replace(" ", "")
    ins, _, out = spec.partition("->")
    ins = ins.split(",")
    ops = [asarray(o) for o in ops]
    if "." in spec or builtins.any(isinstance(o, VArr) for o in ops) or len(ins) != len(ops):
        raise Unsupported("einsum " + spec)
    if "->" not in spec:
        letters = "".join(ins)
        out = "".join(sorted(c for c in set(letters) if letters.count(c) == 1))
    dim = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError("einstein sum subscripts string does not match the operand")
        for c, d in zip(i, o.shape):
            if dim.setdefault(c, d) != d:
                raise ValueError("operands could not be broadcast together")
    rest = [c for c in dim if c not in out]
    r = np.empty(tuple(dim[c] for c in out), dtype=object)
    bs = [base(o) for o in ops]
    for idx in np.ndindex(*r.shape):
        at = dict(zip(out, idx))
        s = 0
        for jdx in np.ndindex(*[dim[c] for c in rest]):
            at.update(zip(rest, jdx))
            p = 1
            for i, b in zip(ins, bs):
                p = b[tuple(at[c] for c in i)] * p
            s = s + p
        r[idx] = s
    k = joinkind(*[o.sk for o in ops])
    return fin(r, k) if r.ndim else r.item()


def interp(x, xp, fp):
    xp = [SReal(term(v)) for v in asarray(xp).reshape(-1)]
    fp = [SReal(term(v)) for v in asarray(fp).reshape(-1)]

    def one(v):
        t = term(v)
        r = term(fp[-1])
        for i in reversed(range(len(xp) - 1)):
            s = fp[i] + (fp[i + 1] - fp[i]) * (SReal(t) - xp[i]) / (xp[i + 1] - xp[i])
            r = tm.ite(tm.lt(t, term(xp[i + 1])), term(s), r)
        return SReal(tm.ite(tm.lt(t, term(xp[0])), term(fp[0]), r))
    if sym.isnum(x):
        return one(x)
    a = asarray(x)
    return mkarr(np.frompyfunc(one, 1, 1)(base(a)), "f")


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return all(isclose(a, b, rtol, atol))


def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    d = apply_ufunc("absolute", [apply_ufunc("subtract", [a, b])])
    return apply_ufunc("less_equal", [d, apply_ufunc("add", [SReal(sym.exact(atol) if not isinstance(atol, SNum) else atol.t), apply_ufunc("multiply", [rtol if isinstance(rtol, SNum) else SReal(sym.exact(rtol)), apply_ufunc("absolute", [b])])])])


def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.shape != b.shape:
        return False
    return all(apply_ufunc("equal", [a, b]))


def isscalar(x):
    return sym.isnum(x) or isinstance(x, str)


def nan_to_num(x, copy=True, nan=0, posinf=None, neginf=None):
    if posinf is None or neginf is None or not copy:
        raise Unsupported("nan_to_num")
    one = lambda v: SReal(tm.ite(tm.isnan(term(v)), term(nan), tm.ite(tm.isinf(term(v)), tm.ite(tm.lt(term(v), tm.ZERO), term(neginf), term(posinf)), term(v))))
    if sym.isnum(x):
        return one(x)
    if isinstance(x, VArr):
        return varr(one(x.el()))
    return mkarr(np.frompyfunc(one, 1, 1)(base(asarray(x))), "f")


def shares_memory(a, b):
    return np.shares_memory(a, b)


may_share_memory = shares_memory


def vectorize(f, **k):
    if k:
        raise Unsupported("vectorize options")

    def g(*a):
        xs = [base(asarray(x)) if not sym.isnum(x) else x for x in a]
        if builtins.any(isinstance(x, VArr) for x in a):
            raise Unsupported("vectorize of a symbolic-length array")
        r = np.frompyfunc(f, len(a), 1)(*xs)
        return mkarr(r) if isinstance(r, np.ndarray) else r
    return g


def result_type(*a):
    return dtype_of(joinkind(*[kindof(x) if not isinstance(x, (_DTMeta, type)) else kind(x) for x in a]))


def errstate(**k):
    import contextlib
    return contextlib.nullcontext()


def set_printoptions(*a, **k):
    pass


class _Linalg:
    def norm(self, a, ord=None, axis=None):
        a = asarray(a)
        if isinstance(a, VArr) or (a.ndim > 1 and not (axis is None and ord is None or isinstance(axis, int))):
            raise Unsupported("norm")
        if axis is not None and a.ndim > 1:
            b = np.moveaxis(base(a), axis, -1)
            o = np.empty(b.shape[:-1], dtype=object)
            for i in np.ndindex(*o.shape):
                o[i] = self.norm(mkarr(b[i], a.sk), ord)
            return mkarr(o, "f")
        if ord == 1:
            return sum(abs(a))
        if ord == inf or ord is np.inf:
            return max(abs(a))
        if ord not in (None, 2):
            raise Unsupported("norm")
        a = ravel(a)
        s = SReal(tm.ZERO)
        for x in a:
            s = s + x * x
        return sym.usqrt(s)

    def inv(self, m):
        m = asarray(m)
        b = base(m)
        n = b.shape[0]
        off = [b[i, j] for i in range(n) for j in range(n) if i != j]
        if builtins.all(term(x) is tm.ZERO for x in off):
            r = zeros((n, n))
            for i in range(n):
                r[i, i] = 1 / SReal(term(b[i, i]))
            return r
        if n == 2:
            det = b[0, 0] * b[1, 1] - b[0, 1] * b[1, 0]
            return array([[b[1, 1] / det, -b[0, 1] / det], [-b[1, 0] / det, b[0, 0] / det]])
        if n == 3:
            a = b
            c = [[None] * 3 for _ in range(3)]
            for i in range(3):
                for j in range(3):
                    i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
                    c[j][i] = a[i1, j1] * a[i2, j2] - a[i1, j2] * a[i2, j1]
            det = a[0, 0] * c[0][0] + a[0, 1] * c[1][0] + a[0, 2] * c[2][0]
            return array([[c[i][j] / det for j in range(3)] for i in range(3)])
        raise Unsupported("inverse")

    def det(self, m):
        b = base(asarray(m))
        if b.ndim != 2 or b.shape[0] != b.shape[1] or b.shape[0] > 3:
            raise Unsupported("det")

        def d(c):
            if len(c) == 1:
                return c[0][0]
            r = SReal(tm.ZERO)
            for j in range(len(c)):
                t = c[0][j] * d([q[:j] + q[j + 1:] for q in c[1:]])
                r = r + t if j % 2 == 0 else r - t
            return r
        return SReal(term(d([list(q) for q in b])))

    def multi_dot(self, ms):
        r = ms[0]
        for m in ms[1:]:
            r = matmul(r, m)
        return r

    def matrix_power(self, m, n):
        if n < 0:
            m, n = self.inv(m), -n
        r = eye(len(m))
        for _ in range(n):
            r = matmul(r, m)
        return r

    def solve(self, a, b):
        return matmul(self.inv(a), b)

    def __getattr__(self, n):
        raise Unsupported("np.linalg." + n)


linalg = _Linalg()
PUBLIC = None


class NPModule:
    """what the verified code sees as `numpy` (and `jax.numpy`)"""

    def __init__(self, name, immutable=False):
        object.__setattr__(self, "__name__", name)

    def __getattr__(self, n):
        g = globals()
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        if n in _HIDDEN or n not in g:
            raise Unsupported("numpy." + n)
        return g[n]


_HIDDEN = {"np", "tm", "sym", "builtins", "math", "F", "SArr", "SBool", "SInt", "SNum", "SReal", "Unsupported", "term", "bterm", "base", "fin",
           "kindof", "joinkind", "wrapnum", "varr", "VArr", "GMat", "cast_el", "BIN", "UN", "BBIN", "BUN"}
