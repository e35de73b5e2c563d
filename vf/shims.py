"""Contract models of the non-NumPy dependencies (math, scipy, jax, pint, pydantic, warnings).

Each is a trusted contract; conformance runs execute the same harnesses against the real libraries."""
import math as _math
import types
import typing
from fractions import Fraction as F

import numpy as np

from . import gen
from . import npshim as n
from . import sym
from . import terms as tm
from .sym import SArr, SBool, SInt, SNum, SReal, Unsupported, base, term


class Mod:
    """module stand-in: unknown attributes are outside the supported subset"""

    def __init__(self, name, **kw):
        self.__dict__["__name__"] = name
        self.__dict__.update(kw)

    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__"):
            raise AttributeError(a)
        raise Unsupported("%s.%s" % (self.__name__, a))


# ---------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, SReal)

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is cls

    def __call__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        elif isinstance(x, np.ndarray):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, SNum):
            return SReal(x.t)
        if isinstance(x, SBool):
            return SReal(term(x))
        if isinstance(x, (int, float, np.number, F)):
            return SReal(sym.exact(x))
        if isinstance(x, Quantity):
            if x.units != _ureg().dimensionless:
                raise DimensionalityError("cannot convert")
            return SReal(term(x.magnitude))
        return SReal(sym.exact(float(x)))

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class vfloat(metaclass=_FloatMeta):
    _vf_float = True

    @staticmethod
    def fromhex(s):
        return SReal(sym.exact(float.fromhex(s)))


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or isinstance(x, SInt)

    def __subclasscheck__(cls, c):
        return issubclass(c, int) or c is cls

    def __call__(cls, x=0, *a):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.reshape(-1)[0]
        elif isinstance(x, np.ndarray):
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        if isinstance(x, SNum):
            t = x.__trunc__().t
            return int(t.a) if t.k == "c" else SInt(t)
        if isinstance(x, SBool):
            return SInt(term(x))
        return int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is int

    def __hash__(cls):
        return hash(int)


class vint(metaclass=_IntMeta):
    _vf_int = True


vfloat.__name__ = "float"
vint.__name__ = "int"


def _pick(lessfirst):
    def f(*a, key=None, **k):
        if key is not None:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            a = list(a[0])
            if not a:
                if "default" in k:
                    return k["default"]
                raise ValueError("empty sequence")
        if any(isinstance(x, np.ndarray) and x.ndim for x in a):
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        if not any(isinstance(x, (SNum, SBool)) for x in a):
            return (min if lessfirst else max)(a)
        r = a[0]
        for x in a[1:]:
            t, u = term(r), term(x)
            integer = sym._isint(r) and sym._isint(x)
            # python: min keeps the earlier unless the later is strictly smaller
            v = tm.ite(tm.lt(u, t), u, t) if lessfirst else tm.ite(tm.lt(t, u), u, t)
            r = SInt(v) if integer else SReal(v)
        return r
    return f


vmin = _pick(True)
vmax = _pick(False)


def vround(x, nd=None):
    if isinstance(x, SNum):
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def vsum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def vpow(a, b, m=None):
    return a ** b


def vbool(x=False):
    return bool(x)


def div(a, b):
    """exact division"""
    if isinstance(a, (int, F)) and isinstance(b, (int, F)) and not isinstance(a, bool):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        return SReal(tm.const(F(a) / F(b)))
    if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, int):
        return SReal(sym.exact(a)) / SReal(sym.exact(b))
    return a / b


# ---------------------------------------------------------------- math
def _m1(name):
    def f(x):
        if isinstance(x, np.ndarray):
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            x = x.reshape(-1)[0]
        if not sym.isnum(x):
            raise TypeError("must be real number, not " + type(x).__name__)
        return sym.UN[name](SReal(term(x)))
    return f


def _mfloor(x):
    t = tm.floor(term(x))
    return int(t.a) if t.k == "c" else SInt(t)


def _mceil(x):
    t = tm.neg(tm.floor(tm.neg(term(x))))
    return int(t.a) if t.k == "c" else SInt(t)


def _msqrt(x):
    t = term(x)
    if t.k == "c" and t.a < 0:
        raise ValueError("math domain error")
    return sym.usqrt(SReal(t))


def _copysign(a, b):
    return SReal(tm.ite(tm.lt(term(b), tm.ZERO), tm.neg(tm.absv(term(a))), tm.absv(term(a))))


def make_math():
    return Mod(
        "math", pi=n.pi, e=n.e, inf=n.inf, nan=n.nan, tau=SReal(tm.scale(2, sym.PI_T)),
        sin=_m1("sin"), cos=_m1("cos"), tan=_m1("tan"), asin=_m1("arcsin"), acos=_m1("arccos"), atan=_m1("arctan"), exp=_m1("exp"), log=_m1("log"),
        sqrt=_msqrt, floor=_mfloor, ceil=_mceil, trunc=vint, fabs=lambda x: SReal(tm.absv(term(x))),
        atan2=lambda a, b: SReal(tm.fn("atan2", term(a), term(b))), radians=_m1("deg2rad"), degrees=_m1("rad2deg"),
        pow=lambda a, b: sym.power(SReal(term(a)), b), isnan=lambda x: SBool(tm.isnan(term(x))), isinf=lambda x: SBool(tm.isinf(term(x))),
        isfinite=lambda x: SBool(tm.not_(tm.or_(tm.isnan(term(x)), tm.isinf(term(x))))),
        hypot=lambda *a: sym.usqrt(vsum([SReal(term(x)) * SReal(term(x)) for x in a])), copysign=_copysign,
        fmod=lambda a, b: a - b * vint(div(a, b)), modf=lambda x: (x - vint(x), SReal(term(vint(x)))), fsum=vsum,
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: abs(a - b) <= vmax(vmax(abs(a), abs(b)) * rel_tol, abs_tol),
    )


# ---------------------------------------------------------------- ODE solvers
class Sol2D:
    """solution matrix of a symbolic-length state: columns are time points"""

    def __init__(self, cols, transposed=False):
        self.cols = cols
        self.tr = transposed

    @property
    def T(self):
        return Sol2D(self.cols, not self.tr)

    def __getitem__(self, idx):
        if not self.tr:
            if isinstance(idx, tuple) and len(idx) == 2 and idx[0] in (slice(None), Ellipsis) and isinstance(idx[1], int):
                return self.cols[idx[1]]
        elif isinstance(idx, int):
            return self.cols[idx]
        elif isinstance(idx, tuple) and isinstance(idx[0], int) and idx[1:] in ((slice(None),), (Ellipsis,)):
            return self.cols[idx[0]]
        raise Unsupported("indexing of a symbolic solution")

    def transpose(self, *axes):
        if axes not in ((), (1, 0), ((1, 0),), (None,)):
            raise Unsupported("transpose of a symbolic solution")
        return self.T

    def __len__(self):
        if not self.tr:
            raise Unsupported("length of a symbolic-length array")
        return len(self.cols)

    def __iter__(self):
        if not self.tr:
            raise Unsupported("iteration over a symbolic-length array")
        return iter(self.cols)

    def copy(self):
        return Sol2D(list(self.cols), self.tr)

    def __getattr__(self, k):
        raise Unsupported("attribute %s of a symbolic solution" % k)


class SolSeq:
    """solution matrix at a symbolic number of time points"""

    def __init__(self, cols):
        self.cols = cols

    @property
    def T(self):
        return self.cols

    def transpose(self, *axes):
        if axes not in ((), (1, 0), ((1, 0),), (None,)):
            raise Unsupported("transpose of a symbolic solution")
        return self.cols

    def __getitem__(self, idx):
        if isinstance(idx, tuple) and len(idx) == 2 and idx[0] in (slice(None), Ellipsis) and isinstance(idx[1], (int, SInt)):
            return self.cols[idx[1]]
        raise Unsupported("indexing of a symbolic solution")

    def __getattr__(self, k):
        raise Unsupported("attribute %s of a symbolic solution" % k)


class OdeResult(dict):
    def __getattr__(self, k):
        try:
            return self[k]
        except KeyError:
            raise AttributeError(k)


class OdeCall:
    def __init__(self, **k):
        self.__dict__.update(k)


def _probe(y0):
    if isinstance(y0, n.VArr):
        return n.varr(SReal(tm.var("probe@y")))
    r = n.zeros(len(y0))
    for i in range(len(y0)):
        np.ndarray.__setitem__(r, i, SReal(tm.var("probe@y%d" % i)))
    return r


def _els(a):
    if isinstance(a, n.VArr):
        return [a.el()]
    if isinstance(a, np.ndarray):
        return list(base(a).reshape(-1))
    return [a]


def _run_solver(kind, rhs, y0, t0, ts, args, call):
    eng = sym.E.cur
    y0 = n.array(y0)
    if not isinstance(y0, n.VArr) and y0.ndim != 1:
        raise ValueError("`y0` must be 1-dimensional.")
    tau = SReal(tm.var("probe@t"))
    pr = _probe(y0)
    keep = [x.t for x in _els(pr)]
    out = rhs(tau, pr)
    if isinstance(out, (list, tuple)):
        out = n.array(out)
    call.probe_t, call.probe_y, call.rhs = tau, pr, out
    call.y0 = y0
    call.probe_clean = [x.t for x in _els(pr)] == keep
    call.t0 = t0
    if not isinstance(y0, n.VArr) and (not isinstance(out, np.ndarray) or out.shape != y0.shape):
        if not (isinstance(out, np.ndarray) and out.size == y0.size):
            raise ValueError("derivative has the wrong shape")
    rt = [term(x) for x in _els(out)]
    yt = [term(x) for x in _els(y0)]

    def flow(t):
        tt = term(t)
        if tt is term(t0):
            return n.array(y0)
        vals = [SReal(tm.fn("flow%d" % i, *rt, *yt, term(t0), tt)) for i in range(len(yt))]
        if isinstance(y0, n.VArr):
            return n.varr(vals[0])
        return n.array(vals, dtype=n.float64)
    if gen.isgen(ts):
        call.cols = gen.Seq(ts.n, lambda p: flow(ts.at(p)), True, len(y0), ts.off)
        call.result = n.array(call.cols[-1])
        eng.ghost.append(call)
        return call.cols
    cols = [flow(t) for t in ts]
    call.cols = [n.array(c) for c in cols]
    call.result = n.array(cols[-1]) if cols else None
    eng.ghost.append(call)
    return cols


def solve_ivp(fun, t_span, y0, method="RK45", t_eval=None, dense_output=False, events=None, vectorized=False, args=None, **options):
    if events is not None or vectorized or dense_output:
        raise Unsupported("solve_ivp events/vectorized/dense_output")
    t0, tf = t_span
    a = tuple(args) if args is not None else ()
    call = OdeCall(solver="solve_ivp", method=method, options=options, t_eval=t_eval, tf=tf, args=a, fun=fun)
    if t_eval is None:
        ts = [t0, SReal(tm.add(tm.scale(F(1, 2), term(t0)), tm.scale(F(1, 2), term(tf)))), tf]
    elif gen.isgen(t_eval):
        ts = t_eval
    else:
        t_eval = n.asarray(t_eval)
        ts = [base(t_eval)[i] for i in range(t_eval.shape[0])]
    cols = _run_solver("ivp", lambda t, y: fun(t, y, *a), y0, t0, ts, a, call)
    if gen.isgen(cols):
        if isinstance(y0, n.VArr):
            raise Unsupported("symbolic number of samples of a symbolic-length state")
        call.ts = ts
        return OdeResult(t=ts, y=SolSeq(cols), success=True, status=0, message="", nfev=8, sol=None, t_events=None, y_events=None, njev=0, nlu=0)
    if cols and isinstance(cols[0], n.VArr):
        y = Sol2D(cols)
    else:
        y = n.stack(cols, axis=1) if cols else n.zeros((len(y0), 0))
    call.ts = ts
    return OdeResult(t=n.array(ts), y=y, success=True, status=0, message="", nfev=8, sol=None, t_events=None, y_events=None, njev=0, nlu=0)


def odeint_jax(func, y0, t, *args, rtol=1.4e-8, atol=1.4e-8, mxstep=float("inf"), hmax=float("inf")):
    t = n.asarray(t)
    ts = [base(t)[i] for i in range(t.shape[0])]
    call = OdeCall(solver="odeint", method="dopri5", options={"rtol": rtol, "atol": atol, "mxstep": mxstep, "hmax": hmax}, t_eval=None, tf=ts[-1], args=args, fun=func)
    cols = _run_solver("jax", lambda tt, y: func(y, tt, *args), y0, ts[0], ts, args, call)
    call.ts = ts
    if isinstance(cols[0], n.VArr):
        return Sol2D(cols, True)
    return n.stack(cols, axis=0)


# ---------------------------------------------------------------- Rotation
def _mm(A, B):
    return [[A[i][0] * B[0][j] + A[i][1] * B[1][j] + A[i][2] * B[2][j] for j in range(3)] for i in range(3)]


_AX = {"X": 0, "Y": 1, "Z": 2}


def _elem(ax, a):
    c, s = n.cos(a), n.sin(a)
    z, o = SReal(tm.ZERO), SReal(tm.ONE)
    return {0: [[o, z, z], [z, c, -s], [z, s, c]], 1: [[c, z, s], [z, o, z], [-s, z, c]], 2: [[c, -s, z], [s, c, z], [z, z, o]]}[ax]


def _qmul(p, q):
    x1, y1, z1, w1 = p
    x2, y2, z2, w2 = q
    return [w1 * x2 + x1 * w2 + y1 * z2 - z1 * y2, w1 * y2 - x1 * z2 + y1 * w2 + z1 * x2,
            w1 * z2 + x1 * y2 - y1 * x2 + z1 * w2, w1 * w2 - x1 * x2 - y1 * y2 - z1 * z2]


class _RotMeta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("Rotation." + n)


class Rotation(metaclass=_RotMeta):
    def __init__(self, M, q):
        self.M = M
        self.q = q     # unit quaternion x,y,z,w

    @classmethod
    def from_quat(cls, q, **k):
        q = [SReal(term(x)) for x in (list(q.reshape(-1)) if isinstance(q, np.ndarray) else q)]
        if len(q) != 4:
            raise ValueError("Expected `quat` to have shape (4,) or (N, 4)")
        n2 = q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]
        if n2 == 0:
            raise ValueError("Found zero norm quaternions in `quat`.")
        x, y, z, w = q
        M = [[x * x - y * y - z * z + w * w, 2 * (x * y - z * w), 2 * (x * z + y * w)],
             [2 * (x * y + z * w), -x * x + y * y - z * z + w * w, 2 * (y * z - x * w)],
             [2 * (x * z - y * w), 2 * (y * z + x * w), -x * x - y * y + z * z + w * w]]
        if n2.t is not tm.ONE:
            M = [[e / n2 for e in r] for r in M]
            nn = sym.usqrt(n2)
            q = [e / nn for e in q]
        return cls(M, q)

    @classmethod
    def from_euler(cls, seq, angles, degrees=False):
        if sym.isnum(angles):
            angles = [angles]
        ang = [SReal(term(x)) for x in (list(angles.reshape(-1)) if isinstance(angles, np.ndarray) else angles)]
        if len(seq) != len(ang):
            raise ValueError("Expected `angles` to have shape matching seq")
        if degrees:
            ang = [SReal(tm.mul(a.t, sym.D2R)) for a in ang]
        if not (seq.isupper() or seq.islower()):
            raise ValueError("Expected axes from `seq` to be from ['x', 'y', 'z'] or ['X', 'Y', 'Z']")
        M = None
        q = None
        for s, a in zip(seq, ang):
            e = _elem(_AX[s.upper()], a)
            h = SReal(tm.scale(F(1, 2), a.t))
            v = [SReal(tm.ZERO)] * 3 + [n.cos(h)]
            v[_AX[s.upper()]] = n.sin(h)
            if M is None:
                M, q = e, v
            elif seq.isupper():
                M, q = _mm(M, e), _qmul(q, v)
            else:
                M, q = _mm(e, M), _qmul(v, q)
        return cls(M, q)

    @classmethod
    def from_rotvec(cls, v, degrees=False):
        v = [SReal(term(x)) for x in (list(v.reshape(-1)) if isinstance(v, np.ndarray) else v)]
        nz = [i for i, x in enumerate(v) if x.t is not tm.ZERO]
        if len(v) != 3 or len(nz) > 1:
            raise Unsupported("Rotation.from_rotvec about a general axis")
        i = nz[0] if nz else 2
        return cls.from_euler("XYZ"[i], v[i], degrees=degrees)

    @classmethod
    def identity(cls):
        return cls.from_quat([0, 0, 0, 1])

    def as_quat(self, canonical=False, **k):
        if canonical:
            raise Unsupported("canonical quaternion")
        return n.array(self.q, dtype=n.float64)

    def as_matrix(self):
        return n.array(self.M, dtype=n.float64)

    def as_euler(self, seq, degrees=False):
        m = [term(x) for r in self.M for x in r]
        return n.array([SReal(tm.fn("as_euler_%s%d%s" % (seq, i, "d" if degrees else ""), *m)) for i in range(3)])

    def as_rotvec(self):
        m = [term(x) for r in self.M for x in r]
        return n.array([SReal(tm.fn("as_rotvec%d" % i, *m)) for i in range(3)])

    def magnitude(self):
        m = [term(x) for r in self.M for x in r]
        return SReal(tm.fn("rot_magnitude", *m))

    def apply(self, v, inverse=False):
        M = n.array(self.M)
        if inverse:
            M = M.T
        v = n.asarray(v)
        return n.matmul_(M, v) if v.ndim == 1 else n.matmul_(v, M.T)

    def inv(self):
        return Rotation([[self.M[j][i] for j in range(3)] for i in range(3)], [-self.q[0], -self.q[1], -self.q[2], self.q[3]])

    def __mul__(self, o):
        return Rotation(_mm(self.M, o.M), _qmul(self.q, o.q))


n.matmul_ = sym.matmul


# ---------------------------------------------------------------- pint
_REG = [None]


def _ureg():
    if _REG[0] is None:
        import pint
        _REG[0] = pint.get_application_registry()
    return _REG[0]


class DimensionalityError(TypeError):
    pass


class PintErrors:
    pass


def real_unit(u):
    import pint
    if isinstance(u, str):
        return _ureg().Unit(u)
    return u


_factors = {}


def unit_factor(u, v):
    """exact conversion factor from unit u to unit v (decimal value reported by pint)"""
    import pint
    key = (str(u), str(v))
    if key not in _factors:
        try:
            q1 = _ureg().Quantity(1.0, u).to(v).magnitude
            q0 = _ureg().Quantity(0.0, u).to(v).magnitude
        except pint.errors.DimensionalityError as ex:
            raise DimensionalityError(str(ex)) from None
        _factors[key] = (F(repr(float(q1 - q0))), F(repr(float(q0))))
    return _factors[key]


class _QMeta(type):
    def __getitem__(cls, k):
        return cls


class Quantity(metaclass=_QMeta):
    def __init__(self, value, units=None):
        self._m = value
        self._u = real_unit(units if units is not None else "")

    @property
    def magnitude(self):
        return self._m
    m = magnitude

    @property
    def units(self):
        return self._u
    u = units

    def to(self, unit):
        f, o = unit_factor(self._u, real_unit(unit))
        m = self._m
        if f != 1:
            m = m * SReal(tm.const(f))
        if o:
            m = m + SReal(tm.const(o))
        return Quantity(m, unit)

    def m_as(self, unit):
        return self.to(unit).magnitude

    def to_base_units(self):
        b = _ureg().Quantity(1.0, self._u).to_base_units().units
        return self.to(b)

    @property
    def dimensionality(self):
        return self._u.dimensionality

    def is_compatible_with(self, u):
        return self._u.is_compatible_with(real_unit(u))

    def check(self, d):
        return _ureg().Quantity(1.0, self._u).check(d)

    def __float__(self):
        raise Unsupported("float(Quantity)")

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        q = _ureg().Quantity(1.0, self._u)
        v = getattr(q, k)
        if k in ("dimensionless", "unitless", "dimensionality"):
            return v
        raise Unsupported("pint.Quantity." + k)


class UnitRegistry:
    Quantity = Quantity

    def __getattr__(self, k):
        return getattr(_ureg(), k)

    def Unit(self, u):
        return real_unit(u)

    def __call__(self, s):
        raise Unsupported("unit parsing")


# ---------------------------------------------------------------- pydantic
class ValidationError(ValueError):
    pass


class AfterValidator:
    def __init__(self, func):
        self.func = func


class BeforeValidator(AfterValidator):
    pass


class PlainValidator(AfterValidator):
    pass


def ConfigDict(**k):
    return dict(k)


class _Missing:
    pass


def make_pydantic(universe):
    def validate(ann, v, mod):
        if isinstance(ann, str):
            ann = eval(ann, mod)  # noqa: S307 - annotation text of the verified class
        origin = typing.get_origin(ann)
        if origin is typing.Annotated or hasattr(ann, "__metadata__"):
            b = ann.__origin__
            metas = ann.__metadata__
            for m in metas:
                if isinstance(m, PlainValidator):
                    return call(m, v)
            for m in reversed([m for m in metas if isinstance(m, BeforeValidator)]):
                v = call(m, v)
            v = validate(b, v, mod)
            for m in metas:
                if type(m) is AfterValidator:
                    v = call(m, v)
                elif not isinstance(m, AfterValidator):
                    raise Unsupported("annotation metadata")
            return v
        if origin is typing.Union or origin is types.UnionType:
            args = typing.get_args(ann)
            for a in args:   # exact type matches first (smart mode)
                if isinstance(a, type) and isinstance(v, a) and a is not type(None):
                    return validate(a, v, mod)
                if a is type(None) and v is None:
                    return v
            err = None
            for a in args:
                try:
                    return validate(a, v, mod)
                except ValidationError as ex:
                    err = ex
            raise err
        if ann is vfloat or ann is float:
            if isinstance(v, (SNum, int, float, np.number)) and not isinstance(v, SBool):
                return SReal(term(v))
            if isinstance(v, str):
                try:
                    return SReal(sym.exact(float(v)))
                except ValueError:
                    raise ValidationError("Input should be a valid number") from None
            if isinstance(v, SArr) and v.ndim == 0:
                return SReal(term(v))
            raise ValidationError("Input should be a valid number")
        if ann is vint or ann is int:
            if isinstance(v, (SInt, int)):
                return v
            raise ValidationError("Input should be a valid integer")
        if ann is str:
            if isinstance(v, str):
                return v
            raise ValidationError("Input should be a valid string")
        if ann is bool:
            if isinstance(v, (bool, SBool)):
                return v
            raise ValidationError("Input should be a valid boolean")
        if ann is typing.Any:
            return v
        if isinstance(ann, type):
            if isinstance(v, ann):
                return v
            raise ValidationError("Input should be an instance of " + ann.__name__)
        raise Unsupported("annotation %r" % (ann,))

    def call(m, v):
        try:
            return m.func(v)
        except (ValueError, AssertionError) as ex:
            raise ValidationError(str(ex)) from ex

    class BaseModel:
        model_config = {}

        def __init__(self, **data):
            fields = {}
            cfg = {}
            for c in reversed(type(self).__mro__):
                cfg.update(c.__dict__.get("model_config", {}))
                if c in (object, BaseModel):
                    continue
                mod = universe.module_dict(c.__module__)
                for k, a in c.__dict__.get("__annotations__", {}).items():
                    if k in ("model_config",):
                        continue
                    fields[k] = (a, c.__dict__.get(k, _Missing), mod)
            vals = {}
            for k, (a, d, mod) in fields.items():
                if k in data:
                    vals[k] = validate(a, data[k], mod)
                elif d is _Missing:
                    raise ValidationError("Field required: " + k)
                else:
                    vals[k] = d
            extra = [k for k in data if k not in fields]
            if extra:
                if cfg.get("extra") == "forbid":
                    raise ValidationError("Extra inputs are not permitted: %s" % extra)
                if cfg.get("extra") == "allow":
                    for k in extra:
                        vals[k] = data[k]
            self.__dict__.update(vals)

        def __getattr__(self, k):
            if k.startswith("model_"):
                raise Unsupported("pydantic " + k)
            raise AttributeError(k)

    BaseModel.__module__ = "pydantic"
    return Mod("pydantic", BaseModel=BaseModel, AfterValidator=AfterValidator, BeforeValidator=BeforeValidator, PlainValidator=PlainValidator,
               ConfigDict=ConfigDict, ValidationError=ValidationError)


# ---------------------------------------------------------------- assembling
def make_shims(universe):
    npm = n.NPModule("numpy")
    jnpm = n.NPModule("jax.numpy")
    spatial_t = Mod("scipy.spatial.transform", Rotation=Rotation)
    spatial = Mod("scipy.spatial", transform=spatial_t)
    integrate = Mod("scipy.integrate", solve_ivp=solve_ivp)
    scipy = Mod("scipy", integrate=integrate, spatial=spatial)
    ode = Mod("jax.experimental.ode", odeint=odeint_jax)
    exper = Mod("jax.experimental", ode=ode)
    jnp2 = type("JNP", (), {"__getattr__": lambda s, k: n.JMix if k in ("ndarray", "Array") else getattr(jnpm, k)})()
    jax = Mod("jax", numpy=jnp2, experimental=exper, jit=lambda f, *a, **k: f, Array=n.JMix)
    errors = Mod("pint.errors", DimensionalityError=DimensionalityError)
    typ = Mod("pint._typing", Quantity=Quantity)
    pint = Mod("pint", Quantity=Quantity, Unit=real_unit, UnitRegistry=UnitRegistry, get_application_registry=lambda: UnitRegistry(),
               errors=errors, DimensionalityError=DimensionalityError, _typing=typ, application_registry=UnitRegistry())

    def warn(msg, *a, **k):
        if getattr(sym.E.cur, "warn_error", False):
            raise UserWarning(msg)
        sym.E.cur.warnings.append(str(msg) if isinstance(msg, str) else "warning")
    warnings = Mod("warnings", warn=warn, simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)
    return {"numpy": npm, "numpy.linalg": n.linalg, "math": make_math(), "scipy": scipy, "scipy.integrate": integrate, "scipy.spatial": spatial,
            "scipy.spatial.transform": spatial_t, "jax": jax, "jax.numpy": jnp2, "jax.experimental": exper, "jax.experimental.ode": ode,
            "pint": pint, "pint.errors": errors, "pint._typing": typ, "pydantic": make_pydantic(universe), "warnings": warnings}
