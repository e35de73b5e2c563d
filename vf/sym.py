"""Symbolic scalars and arrays executed by the real code.

SReal / SInt / SBool wrap terms; SArr is a numpy.ndarray subclass (object dtype) so that slicing, views, aliasing and
in-place writes are numpy's own.  `E` is the running engine (decisions, obligations)."""
import math
import numbers
import operator
from fractions import Fraction as F

import numpy as np

from . import terms as tm


class Unsupported(BaseException):
    """code left the supported subset: the harness is undecided, the bounded check stands in"""


class _Eng:
    cur = None


E = _Eng()


def exact(x):
    """python/numpy number -> exact term"""
    if isinstance(x, bool) or isinstance(x, np.bool_):
        return tm.ONE if x else tm.ZERO
    if isinstance(x, (int, np.integer)):
        return tm.const(int(x))
    if isinstance(x, F):
        return tm.const(x)
    if isinstance(x, (float, np.floating)):
        if isinstance(x, np.float32):
            x = float(str(x))
        x = float(x)
        if math.isnan(x):
            return tm.NAN
        if math.isinf(x):
            return tm.PINF if x > 0 else tm.NINF
        return tm.const(F(repr(x)))
    raise TypeError(type(x).__name__)


def term(x):
    if isinstance(x, SNum):
        return x.t
    if isinstance(x, SBool):
        return tm.ite(x.t, tm.ONE, tm.ZERO)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x.item())
    return exact(x)


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return tm.TRUE if x else tm.FALSE
    if isinstance(x, SNum):
        return tm.not_(tm.eq(x.t, tm.ZERO))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return bterm(x.item())
    return tm.TRUE if x else tm.FALSE


def isnum(x):
    return isinstance(x, (SNum, SBool, int, float, F, np.number, np.bool_)) or (isinstance(x, np.ndarray) and x.ndim == 0 and not isinstance(x, SArr)) \
        or (isinstance(x, SArr) and x.ndim == 0)


class SBool:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        if self.t is tm.TRUE:
            return True
        if self.t is tm.FALSE:
            return False
        return E.cur.decide(self.t)

    def __and__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return SBool(tm.and_(self.t, bterm(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        return SBool(tm.or_(self.t, bterm(o)))
    __ror__ = __or__

    def __xor__(self, o):
        return SBool(tm.not_(tm.iff(self.t, bterm(o))))
    __rxor__ = __xor__

    def __invert__(self):
        return SBool(tm.not_(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool, np.bool_)):
            return SBool(tm.iff(self.t, bterm(o)))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else SBool(tm.not_(r.t))

    def __hash__(self):
        return self.t.id

    # numpy-bool scalar protocol
    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def item(self):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    ndim = 0
    size = 1

    # arithmetic on booleans
    def __add__(self, o):
        return SInt(term(self)) + o

    def __radd__(self, o):
        return o + SInt(term(self))

    def __mul__(self, o):
        return SInt(term(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return SInt(term(self)) - o

    def __rsub__(self, o):
        return o - SInt(term(self))

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __repr__(self):
        return "<sbool %r>" % (self.t,)

    def __format__(self, s):
        return "<sym>"

    def __reduce__(self):
        raise Unsupported("pickle")


def _arith(f):
    def g(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        try:
            t = term(o)
        except TypeError:
            return NotImplemented
        return f(self, o, t)
    return g


def _mk(t, integer):
    if integer:
        return SInt(t)
    return SReal(t)


def _isint(x):
    return isinstance(x, (SInt, int, np.integer, SBool)) or isinstance(x, bool)


def wd_nonzero(t, what="division"):
    if t.k == "c":
        if t.a == 0:
            E.cur.wd(tm.FALSE, what + " by zero")
            raise ZeroDivisionError("division by zero")
        return
    if t.sp:
        return
    if E.cur is not None:
        E.cur.wd(tm.not_(tm.eq(t, tm.ZERO)), what + " by zero")


class SNum:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t if isinstance(t, tm.T) else exact(t)

    def __hash__(self):
        """a symbolic key meets the other symbolic keys of a table (one bucket; equality forks the path), but not the constant ones: the run
        may still refute, and proves nothing on its own (undecided, concrete stand-in)"""
        if tm.is_const(self.t):
            return hash(self.t.a)
        r = E.cur.run
        r.complete = False
        why = "set member or dictionary key that is a symbolic number"
        if why not in r.unsupported:
            r.unsupported.append(why)
        return 0x5eed

    def __add__(self, o):
        return _bin(self, o, tm.add)

    def __radd__(self, o):
        return _bin(self, o, lambda a, b: tm.add(b, a))

    def __sub__(self, o):
        return _bin(self, o, tm.sub)

    def __rsub__(self, o):
        return _bin(self, o, lambda a, b: tm.sub(b, a))

    def __mul__(self, o):
        return _bin(self, o, tm.mul)

    def __rmul__(self, o):
        return _bin(self, o, lambda a, b: tm.mul(b, a))

    def __truediv__(self, o):
        def f(a, b):
            wd_nonzero(b)
            return tm.div(a, b)
        return _bin(self, o, f, False)

    def __rtruediv__(self, o):
        def f(a, b):
            wd_nonzero(a)
            return tm.div(b, a)
        return _bin(self, o, f, False)

    def __floordiv__(self, o):
        def f(a, b):
            wd_nonzero(b)
            return tm.floor(tm.div(a, b))
        return _bin(self, o, f)

    def __rfloordiv__(self, o):
        def f(a, b):
            wd_nonzero(a)
            return tm.floor(tm.div(b, a))
        return _bin(self, o, f)

    def __mod__(self, o):
        def f(a, b):
            wd_nonzero(b)
            return tm.mod(a, b)
        return _bin(self, o, f)

    def __rmod__(self, o):
        def f(a, b):
            wd_nonzero(a)
            return tm.mod(b, a)
        return _bin(self, o, f)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o, m=None):
        return power(self, o)

    def __rpow__(self, o):
        return power(SReal(term(o)), self)

    def __neg__(self):
        return type(self)(tm.neg(self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return type(self)(tm.absv(self.t))

    def __lt__(self, o):
        return _cmpop(self, o, tm.lt)

    def __le__(self, o):
        return _cmpop(self, o, tm.le)

    def __gt__(self, o):
        return _cmpop(self, o, lambda a, b: tm.lt(b, a))

    def __ge__(self, o):
        return _cmpop(self, o, lambda a, b: tm.le(b, a))

    def __eq__(self, o):
        return _cmpop(self, o, tm.eq)

    def __ne__(self, o):
        r = _cmpop(self, o, tm.eq)
        return r if r is NotImplemented else SBool(tm.not_(r.t))

    def __bool__(self):
        return bool(self != 0)

    def __floor__(self):
        return SInt(tm.floor(self.t))

    def __ceil__(self):
        return SInt(tm.neg(tm.floor(tm.neg(self.t))))

    def __trunc__(self):
        t = self.t
        return SInt(tm.ite(tm.lt(t, tm.ZERO), tm.neg(tm.floor(tm.neg(t))), tm.floor(t)))

    def __round__(self, n=None):
        if n is None and tm.is_int_term(self.t):
            return SInt(self.t)
        from . import npshim
        r = npshim._round1(self, 0 if n is None else n).t
        return SInt(r) if n is None else SReal(r)

    def __float__(self):
        if self.t.k == "c":
            return float(self.t.a)
        if self.t.k == "inf":
            return math.inf * self.t.a
        if self.t.k == "nan":
            return math.nan
        raise Unsupported("conversion of a symbolic value to a machine float")

    def __int__(self):
        t = self.__trunc__().t
        if t.k == "c":
            return int(t.a)
        return E.cur.concretize(t)

    def __complex__(self):
        raise Unsupported("complex")

    # numpy scalar protocol
    @property
    def shape(self):
        return ()

    ndim = 0
    size = 1

    @property
    def dtype(self):
        from . import npshim
        return npshim.float64

    def copy(self):
        return self

    def item(self):
        return self

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def astype(self, dt, **k):
        from . import npshim
        return npshim.cast(self, npshim.kind(dt))

    def conjugate(self):
        return self

    def all(self, *a, **k):
        return self != 0

    def sqrt(self):
        return usqrt(self)

    def __array__(self, dtype=None, copy=None):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def is_integer(self):
        return SBool(tm.eq(self.t, tm.floor(self.t)))

    def __repr__(self):
        return "<%s %r>" % (type(self).__name__, self.t)

    __str__ = __repr__

    def __format__(self, s):
        return "<sym>"

    def __copy__(self):
        return self

    def __deepcopy__(self, m):
        return self

    def __reduce__(self):
        raise Unsupported("pickle")


class SReal(SNum):
    __slots__ = ()


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        if self.t.k == "c":
            return int(self.t.a)
        return E.cur.concretize(self.t)

    def __truediv__(self, o):
        return SReal(self.t) / o

    def __rtruediv__(self, o):
        return o / SReal(self.t)

    @property
    def dtype(self):
        from . import npshim
        return npshim.int64


def _bin(a, o, f, keepint=True):
    if isinstance(o, np.ndarray) and o.ndim:
        return NotImplemented
    try:
        t = term(o)
    except TypeError:
        return NotImplemented
    r = f(a.t, t)
    if keepint and isinstance(a, SInt) and _isint(o):
        return SInt(r)
    return SReal(r)


def _cmpop(a, o, f):
    if isinstance(o, np.ndarray) and o.ndim:
        return NotImplemented
    if o is None or isinstance(o, str):
        return NotImplemented
    try:
        t = term(o)
    except TypeError:
        return NotImplemented
    return SBool(f(a.t, t))


def power(a, n):
    nt = term(n)
    at = term(a)
    if nt.k == "c":
        e = nt.a
        if e.denominator == 1:
            if e < 0:
                wd_nonzero(at)
            r = tm.power(at, int(e))
            return SInt(r) if isinstance(a, SInt) and e >= 0 else SReal(r)
        if e == F(1, 2):
            return usqrt(SReal(at))
        E.cur.wd(tm.le(tm.ZERO, at), "fractional power of a negative number")
        return SReal(tm.fn("rpow", at, nt))
    raise Unsupported("symbolic exponent")


def usqrt(x):
    t = term(x)
    E.cur.wd(tm.le(tm.ZERO, t), "square root of a negative number")
    return SReal(tm.fn("sqrt", t))


# ---------------------------------------------------------------- arrays
def _obj(f, nin):
    return np.frompyfunc(f, nin, 1)


def wrapnum(x):
    """element stored in a float array"""
    if isinstance(x, SNum):
        return x if isinstance(x, SReal) else SReal(x.t)
    if isinstance(x, SBool):
        return SReal(term(x))
    if x is None:
        return SReal(tm.NAN)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return wrapnum(x.item())
    if isinstance(x, str):
        raise ValueError("could not convert string to float: %r" % x)
    return SReal(exact(x))


def sdiv(a, b):
    if isinstance(a, SNum) or isinstance(b, SNum):
        return a / b
    if isinstance(a, SBool) or isinstance(b, SBool):
        return SReal(term(a)) / SReal(term(b))
    return a / b


def _eqel(a, b):
    r = a == b
    return r if isinstance(r, SBool) else SBool(tm.TRUE if r else tm.FALSE)


def _neel(a, b):
    return SBool(tm.not_(_eqel(a, b).t))


def _b(f):
    def g(a, b):
        r = f(a, b)
        return r if isinstance(r, SBool) else SBool(tm.TRUE if r else tm.FALSE)
    return g


def _clip_el(x, lo, hi):
    xt = term(x)
    if lo is not None:
        l = term(lo)
        xt = tm.ite(tm.lt(xt, l), l, xt)
    if hi is not None:
        h = term(hi)
        xt = tm.ite(tm.lt(h, xt), h, xt)
    return SReal(xt)


def _fun(name):
    def g(x):
        t = term(x)
        if name == "tan":
            E.cur.wd(tm.not_(tm.eq(tm.fn("cos", t), tm.ZERO)), "tangent at a pole")
        if name in ("asin", "acos"):
            E.cur.wd(tm.and_(tm.le(tm.const(-1), t), tm.le(t, tm.ONE)), "arcsine outside [-1, 1]")
        if name == "asin":
            return SReal(tm.fn("asin", t))
        if name == "log":
            E.cur.wd(tm.lt(tm.ZERO, t), "log of a non-positive number")
        return SReal(tm.fn(name, t))
    return g


def _sign_el(x):
    t = term(x)
    return SReal(tm.ite(tm.lt(t, tm.ZERO), tm.const(-1), tm.ite(tm.eq(t, tm.ZERO), tm.ZERO, tm.ONE)))


PI_T = tm.const(F(repr(math.pi)))
D2R = tm.const(F(repr(math.pi)) / 180)
R2D = tm.const(180 / F(repr(math.pi)))

# numpy: minimum returns nan if any; machine nan only arises from nan leaves, treated by ite distribution
BIN = {
    "add": operator.add, "subtract": operator.sub, "multiply": operator.mul, "true_divide": sdiv, "divide": sdiv,
    "floor_divide": operator.floordiv, "remainder": operator.mod, "mod": operator.mod, "power": lambda a, b: power(a, b) if isinstance(a, SNum) or isinstance(b, SNum) else a ** b,
    "float_power": lambda a, b: power(SReal(term(a)), b),
    "minimum": lambda a, b: SReal(tm.tmin(term(a), term(b))), "maximum": lambda a, b: SReal(tm.tmax(term(a), term(b))),
    "fmin": lambda a, b: SReal(tm.tmin(term(a), term(b))), "fmax": lambda a, b: SReal(tm.tmax(term(a), term(b))),
    "arctan2": lambda a, b: SReal(tm.fn("atan2", term(a), term(b))),
    "hypot": lambda a, b: usqrt(a * a + b * b),
}
BBIN = {
    "less": _b(operator.lt), "less_equal": _b(operator.le), "greater": _b(operator.gt), "greater_equal": _b(operator.ge),
    "equal": _eqel, "not_equal": _neel,
    "logical_and": lambda a, b: SBool(tm.and_(bterm(a), bterm(b))), "logical_or": lambda a, b: SBool(tm.or_(bterm(a), bterm(b))),
    "bitwise_and": lambda a, b: SBool(tm.and_(bterm(a), bterm(b))), "bitwise_or": lambda a, b: SBool(tm.or_(bterm(a), bterm(b))),
    "logical_xor": lambda a, b: SBool(tm.not_(tm.iff(bterm(a), bterm(b)))),
    "bitwise_xor": lambda a, b: SBool(tm.not_(tm.iff(bterm(a), bterm(b)))),
}
UN = {
    "negative": operator.neg, "positive": lambda a: a, "absolute": abs, "fabs": abs, "square": lambda a: a * a,
    "sin": _fun("sin"), "cos": _fun("cos"), "tan": _fun("tan"), "sqrt": usqrt, "arcsin": _fun("asin"), "arccos": _fun("acos"),
    "arctan": _fun("atan"), "exp": _fun("exp"), "log": _fun("log"),
    "floor": lambda a: SReal(tm.floor(term(a))), "ceil": lambda a: SReal(tm.neg(tm.floor(tm.neg(term(a))))),
    "trunc": lambda a: SReal(SReal(term(a)).__trunc__().t),
    "fix": lambda a: SReal(SReal(term(a)).__trunc__().t),
    "sign": _sign_el, "deg2rad": lambda a: SReal(tm.mul(term(a), D2R)), "radians": lambda a: SReal(tm.mul(term(a), D2R)),
    "rad2deg": lambda a: SReal(tm.mul(term(a), R2D)), "degrees": lambda a: SReal(tm.mul(term(a), R2D)),
    "reciprocal": lambda a: 1 / SReal(term(a)), "conjugate": lambda a: a,
}
BUN = {
    "isnan": lambda a: SBool(tm.isnan(term(a))), "isinf": lambda a: SBool(tm.isinf(term(a))),
    "isfinite": lambda a: SBool(tm.not_(tm.or_(tm.isnan(term(a)), tm.isinf(term(a))))),
    "logical_not": lambda a: SBool(tm.not_(bterm(a))), "invert": lambda a: SBool(tm.not_(bterm(a))), "bitwise_not": lambda a: SBool(tm.not_(bterm(a))),
    "signbit": lambda a: SBool(tm.lt(term(a), tm.ZERO)),
}
_FP = {}


def _pf(name, f, n):
    g = _FP.get(name)
    if g is None:
        g = _FP[name] = np.frompyfunc(f, n, 1)
    return g


def base(a):
    """plain object ndarray view of anything array like"""
    if isinstance(a, np.ndarray):
        if a.dtype is object or np.ndarray.dtype.__get__(a) == object:
            return a.view(np.ndarray)
        o = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            v = a[i]
            o[i] = v.item() if isinstance(v, (np.integer, np.bool_)) else SReal(exact(v)) if isinstance(v, np.floating) else v
        return o
    return a


def kindof(x):
    from . import npshim
    if isinstance(x, SArr):
        return x.sk
    if isinstance(x, np.ndarray):
        return npshim.kind(np.ndarray.dtype.__get__(x))
    if isinstance(x, (SBool, bool, np.bool_)):
        return "b"
    if isinstance(x, (SInt, int, np.integer)):
        return "i"
    if isinstance(x, (SReal, float, np.floating, F)) or x is None:
        return "f"
    return "o"


ORD = "bifo"
PREC = {"f32": 1, "f64": 2}


def joinkind(*ks):
    r = "b"
    for k in ks:
        k0 = k[0]
        if ORD.index(k0) > ORD.index(r[0]):
            r = k
        elif k0 == r[0] == "f" and (k == "f" or r == "f32"):
            r = r if k == "f" else k
    return r


class SArr(np.ndarray):
    """symbolic array: object ndarray with a declared element kind sk in b, i, f, f32, o"""

    def __array_finalize__(self, obj):
        self.sk = getattr(obj, "sk", "f")

    @property
    def dtype(self):
        from . import npshim
        return npshim.dtype_of(self.sk)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop("out", None)
        name = ufunc.__name__
        where = kw.pop("where", True)
        kw.pop("casting", None)
        dt = kw.pop("dtype", None)
        if where is not True:
            raise Unsupported("ufunc where=")
        if method == "__call__":
            r = apply_ufunc(name, inputs)
            if dt is not None:
                from . import npshim
                r = npshim.cast(r, npshim.kind(dt))
        elif method == "reduce":
            r = reduce_ufunc(name, inputs[0], **kw)
        elif method == "outer" and name == "multiply":
            a, b = (np.ravel(base(x)) for x in inputs)
            r = apply_ufunc("multiply", (mkarr(a.reshape(-1, 1)), mkarr(b.reshape(1, -1))))
        elif method == "accumulate" and name == "add":
            a = base(inputs[0])
            r = mkarr(np.add.accumulate(a, **kw), kindof(inputs[0]))
        else:
            raise Unsupported("ufunc %s.%s" % (name, method))
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if not isinstance(o, SArr):
                raise Unsupported("out= into a machine array")
            ko, kr = o.sk[0], kindof(r)[0]
            if ko in "bi" and kr == "f" or ko == "b" and kr == "i":
                raise TypeError("Cannot cast ufunc '%s' output with casting rule 'same_kind'" % name)
            o[...] = r
            return o
        return r

    def __setitem__(self, idx, v):
        k = self.sk
        idx = fixidx(idx)
        if isinstance(v, (list, tuple)):
            from . import npshim
            v = npshim.array(v)
        if k[0] == "o":
            np.ndarray.__setitem__(self, idx, v)
            return
        from . import npshim
        if isinstance(v, np.ndarray) and v.ndim:
            v = npshim.cast(v, k)
            np.ndarray.__setitem__(self, idx, base(v))
        else:
            if isinstance(v, np.ndarray):
                v = v.item()
            np.ndarray.__setitem__(self, idx, npshim.cast_el(v, k))

    def __getitem__(self, idx):
        r = np.ndarray.__getitem__(self, fixidx(idx))
        return r

    @property
    def base(self):
        raise Unsupported("ndarray.base")

    def _fnm(name):
        def m(self, *a, **k):
            from . import npshim
            return getattr(npshim, name)(self, *a, **k)
        return m

    all = _fnm("all")
    any = _fnm("any")
    sum = _fnm("sum")
    dot = _fnm("dot")
    clip = _fnm("clip")
    max = _fnm("max")
    min = _fnm("min")
    mean = _fnm("mean")
    prod = _fnm("prod")
    argmax = _fnm("argmax")
    argmin = _fnm("argmin")
    round = _fnm("round")
    cumsum = _fnm("cumsum")
    cumprod = _fnm("cumprod")
    ptp = _fnm("ptp")
    nonzero = _fnm("nonzero")
    trace = _fnm("trace")
    std = _fnm("std")
    var = _fnm("var")
    searchsorted = _fnm("searchsorted")
    argsort = _fnm("argsort")

    def astype(self, dt, *a, copy=True, **k):
        from . import npshim
        r = npshim.cast(self, npshim.kind(dt))
        return r.copy() if copy and r is self else r

    def tolist(self):
        return base(self).tolist()

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        return float(self.item())

    def __contains__(self, x):
        return bool((self == x).any())

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __reduce__(self):
        raise Unsupported("pickle")

    def __repr__(self):
        return "SArr(%s)" % (base(self).tolist(),)

    __str__ = __repr__

    def __format__(self, s):
        return "<symarr>"


def fixidx(idx):
    def one(i):
        if isinstance(i, SInt):
            return i.__index__()
        if isinstance(i, SArr):
            if i.sk == "b":
                return np.array([bool(x) for x in i.reshape(-1)], dtype=bool).reshape(i.shape)
            if i.sk == "i":
                return np.array([operator.index(x) for x in i.reshape(-1)], dtype=int).reshape(i.shape)
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        if isinstance(i, SReal):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        if isinstance(i, SBool):
            return bool(i)
        if isinstance(i, slice):
            return slice(*[x.__index__() if isinstance(x, SInt) else x for x in (i.start, i.stop, i.step)])
        if isinstance(i, list):
            return [one(x) for x in i]
        return i
    if isinstance(idx, tuple):
        return tuple(one(i) for i in idx)
    return one(idx)


def mkarr(a, kind=None):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    r = a.view(SArr)
    if kind is None:
        kind = joinkind(*[kindof(x) for x in a.reshape(-1)]) if a.size else "f"
    r.sk = kind
    return r


def fin(r, kind):
    """wrap an object ufunc result"""
    if isinstance(r, np.ndarray) and r.ndim:
        r = r.view(SArr)
        r.sk = kind
        return r
    if isinstance(r, np.ndarray):
        r = r.item()
    return r


def apply_ufunc(name, inputs):
    from . import npshim
    if any(isinstance(x, npshim.VArr) for x in inputs):
        for x in inputs:
            if isinstance(x, np.ndarray) and x.ndim and not isinstance(x, npshim.VArr):
                raise Unsupported("symbolic-length array combined with a fixed-length array")
        if name == "matmul":
            raise Unsupported("matmul of symbolic-length arrays")
        return npshim.varr(apply_ufunc(name, [x.plain() if isinstance(x, npshim.VArr) else x for x in inputs]))
    kinds = [kindof(x) for x in inputs]
    ins = [base(x) if not isinstance(x, (list, tuple)) else base(npshim.array(x)) for x in inputs]
    if name in BIN:
        if all(k[0] in "bi" for k in kinds) and name not in ("true_divide", "divide", "float_power"):
            k = "i"
        elif name in ("minimum", "maximum", "fmin", "fmax") and all(k[0] in "bi" for k in kinds):
            k = "i"
        else:
            k = joinkind("f" if name in ("true_divide", "divide", "float_power") and all(x[0] in "bi" for x in kinds) else "b", *kinds)
        return fin(_pf(name, BIN[name], 2)(*ins), k)
    if name in BBIN:
        if name.startswith("bitwise") and any(k[0] != "b" for k in kinds):
            raise Unsupported("bitwise operation on integers")
        return fin(_pf(name, BBIN[name], 2)(*ins), "b")
    if name in UN:
        k = kinds[0]
        if k[0] in "bi" and name not in ("negative", "positive", "absolute", "square", "sign", "conjugate"):
            k = "f"
        return fin(_pf(name, UN[name], 1)(*ins), k)
    if name in BUN:
        return fin(_pf(name, BUN[name], 1)(*ins), "b")
    if name == "matmul":
        return matmul(*inputs)
    if name == "clip":
        return fin(_pf("clip", _clip_el, 3)(*ins), joinkind(*kinds))
    raise Unsupported("ufunc " + name)


def reduce_ufunc(name, a, axis=0, keepdims=False, initial=None, **kw):
    from . import npshim
    m = {"add": npshim.sum, "multiply": npshim.prod, "logical_and": npshim.all, "logical_or": npshim.any, "maximum": npshim.max, "minimum": npshim.min}
    if name in m and not keepdims and initial is None:
        return m[name](a, axis=axis)
    raise Unsupported("reduce " + name)


def matmul(a, b):
    if hasattr(a, "_vf_shaped"):
        return a @ b
    if not isinstance(a, (np.ndarray,)) and not isinstance(a, (list, tuple)):
        raise ValueError("matmul: Input operand 0 does not have enough dimensions")
    from . import npshim
    a = npshim.asarray(a)
    b = npshim.asarray(b)
    k = joinkind(kindof(a), kindof(b))
    x, y = base(a), base(b)
    if x.ndim == 0 or y.ndim == 0:
        raise ValueError("matmul: Input operand does not have enough dimensions")
    if x.ndim > 2 or y.ndim > 2:
        raise Unsupported("matmul of >2 dimensions")
    x2 = x.reshape(1, -1) if x.ndim == 1 else x
    y2 = y.reshape(-1, 1) if y.ndim == 1 else y
    if x2.shape[1] != y2.shape[0]:
        raise ValueError("matmul: Input operand 1 has a mismatch in its core dimension 0 (size %d is different from %d)" % (y2.shape[0], x2.shape[1]))
    r = np.empty((x2.shape[0], y2.shape[1]), dtype=object)
    zero = 0 if k[0] in "bi" else SReal(tm.ZERO)
    for i in range(r.shape[0]):
        for j in range(r.shape[1]):
            s = zero
            for q in range(x2.shape[1]):
                s = s + x2[i, q] * y2[q, j]
            r[i, j] = s
    if x.ndim == 1 and y.ndim == 1:
        return r[0, 0]
    if x.ndim == 1:
        r = r[0]
    elif y.ndim == 1:
        r = r[:, 0]
    return fin(r, k)


numbers.Real.register(SReal)
numbers.Integral.register(SInt)
