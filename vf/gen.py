"""Sequences of symbolic length and the loop rule for them.

`Seq` is a list or array whose length is a term and whose element at a symbolic position is given by a function.  A `for`
statement over one is verified by the usual rule for a loop whose invariant is "nothing has changed": one arbitrary
iteration is executed, at the position the harness calls the generic index.  Every local variable the body assigns is
unbound before it and after it (a read of a value carried from another iteration is caught), and everything reachable
from the package's frames and modules must be as it was when the iteration began.  Loops left by break or return, nested
generic loops, iterators held in variables and consumers other than the for statement and list displays are Unsupported."""
import builtins
import dis
import sys
import types

import numpy as np

from . import terms as tm
from . import sym
from .sym import E, SArr, SInt, SNum, Unsupported, term


def _i(x):
    return x.t if isinstance(x, SNum) else tm.const(int(x))


def _n(t):
    return int(t.a) if t.k == "c" else SInt(t)


def isgen(x):
    return isinstance(type(x), type) and issubclass(type(x), Gen)


class Gen:
    """n: length (int or SInt); off: position of the generic index is g - off"""
    n = 0
    off = tm.ZERO

    def at(self, p):
        raise NotImplementedError

    def __iter__(self):
        return GenIter(self)

    def __bool__(self):
        return bool(SInt(_i(self.n)) > 0)

    def __copy__(self):
        raise Unsupported("copy of a sequence of symbolic length")

    def __deepcopy__(self, m):
        raise Unsupported("copy of a sequence of symbolic length")

    def __contains__(self, x):
        raise Unsupported("membership in a sequence of symbolic length")


class Range(Gen):
    def __init__(self, start, stop):
        self.start, self.stop = start, stop
        self.off = _i(start)
        d = SInt(tm.sub(_i(stop), _i(start)))
        self.n = _n(tm.tmax(d.t, tm.ZERO))

    def at(self, p):
        return _n(tm.add(self.off, p))


class Zip(Gen):
    def __init__(self, *xs):
        self.xs = xs
        self.off = xs[0].off
        ns = [_i(x.n) for x in xs]
        n = ns[0]
        for m in ns[1:]:
            n = tm.tmin(n, m)
        self.n = _n(n)

    def at(self, p):
        return tuple(x.at(p) for x in self.xs)


class Seq(Gen):
    """fn(term) -> element; cols: None, or the length of every element (array of two dimensions); arr: array or list"""

    def __init__(self, n, fn, arr=False, cols=None, off=tm.ZERO, parent=None):
        self.n, self.fn, self.arr, self.cols, self.off = n, fn, arr, cols, off
        self.cache = {} if parent is None else None
        self.parent = parent

    def at(self, p):
        if self.parent is not None:
            return self.fn(p)
        r = self.cache.get(p)
        if r is None:
            v = self.fn(p)
            self.cache[p] = r = (v, fp(v))
        return r[0]

    def unaltered(self):
        return all(fp(v) == f for v, f in self.cache.values())

    def _arr(self):
        if not self.arr:
            raise AttributeError("'list' object has no such attribute")

    @property
    def shape(self):
        self._arr()
        return (self.n,) if self.cols is None else (self.n, self.cols)

    @property
    def size(self):
        self._arr()
        return self.n if self.cols is None else _n(tm.mul(_i(self.n), _i(self.cols)))

    @property
    def ndim(self):
        self._arr()
        return 1 if self.cols is None else 2

    @property
    def dtype(self):
        self._arr()
        from . import npshim
        return npshim.float64

    def _pos(self, i):
        n = _i(self.n)
        t = _i(i)
        if SInt(t) < 0:
            t = tm.add(t, n)
            if SInt(t) < 0:
                raise IndexError("index out of range")
        elif not (SInt(t) < SInt(n)):
            raise IndexError("index out of range")
        return t

    def _slice(self, s):
        if s.step is not None and s.step != 1:
            raise Unsupported("step in a slice of a sequence of symbolic length")
        n = _i(self.n)

        def norm(x, d):
            if x is None:
                return d
            t = _i(x)
            if SInt(t) < 0:
                t = tm.add(t, n)
                return t if SInt(t) >= 0 else tm.ZERO
            return t if SInt(t) <= SInt(n) else n
        a, b = norm(s.start, tm.ZERO), norm(s.stop, n)
        m = tm.sub(b, a)
        if SInt(m) < 0:
            m = tm.ZERO
        for c in (m,):        # a length that only one value fits
            k = const_of(c)
            m = tm.const(k) if k is not None else c
        return a, m

    def __getitem__(self, i):
        if isinstance(i, tuple):
            if self.cols is None or len(i) != 2:
                raise Unsupported("index into a sequence of symbolic length")
            r, c = i
            if isinstance(r, slice):
                rows = self[r]
                k = rows.at
                if isinstance(c, slice):
                    a, m = Seq(self.cols, None)._slice(c)
                    w = SInt(m)
                    if m.k == "c":
                        return Seq(rows.n, lambda p: mkrow([pick(k(p), tm.add(a, tm.const(j))) for j in range(int(m.a))]), True, int(m.a), rows.off, self)
                    return Seq(rows.n, lambda p: Seq(w, lambda q: pick(k(p), tm.add(a, q)), True, None, tm.ZERO, self), True, w, rows.off, self)
                cc = Seq(self.cols, None)._pos(c)
                return Seq(rows.n, lambda p: pick(k(p), cc), True, None, rows.off, self)
            return self.at(self._pos(r))[c]
        if isinstance(i, slice):
            a, m = self._slice(i)
            return Seq(_n(m), lambda p: self.at(tm.add(a, p)), self.arr, self.cols, tm.add(self.off, a), self)
        if isinstance(i, (int, np.integer, SInt)):
            return self.at(self._pos(i))
        raise Unsupported("index into a sequence of symbolic length")

    def copy(self):
        if self.cols is not None:
            raise Unsupported("copy of an array of symbolic length")
        return Seq(self.n, self.at, self.arr, self.cols, self.off)

    def __setitem__(self, i, v):
        raise Unsupported("write into a sequence of symbolic length")

    def __eq__(self, o):
        raise Unsupported("comparison of a sequence of symbolic length")
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s of a sequence of symbolic length" % name)


def const_of(t):
    if t.k == "c":
        return int(t.a)
    vc = E.cur
    for k in (1, 16, 13):
        if vc.ctx.check(tm.not_(tm.eq(t, tm.const(k)))) == "unsat":
            return k
    return None


def pick(row, t):
    if isgen(row):
        return row.at(t)
    return row[_n(t)]


def mkrow(xs):
    return sym.mkarr(np.array(list(xs) + [None], dtype=object)[:-1], "f")


# ---------------------------------------------------------------- the loop rule
class GenIter:
    def __init__(self, src):
        vc = E.cur
        if vc is None or vc.gidx is None:
            raise Unsupported("loop over a sequence of symbolic length")
        self.vc, self.src, self.state = vc, src, 0

    def __iter__(self):
        return self

    def __next__(self):
        vc, f = self.vc, sys._getframe(1)
        if self.state == 2:
            raise StopIteration
        ins, end = loop_of(f)
        if self.state == 0:
            if vc.openloops:
                raise Unsupported("nested loops over sequences of symbolic length")
            self.frame = f
            self.names = assigned(f.f_code, ins, end)
            self.state = 2
            p = tm.sub(vc.gidx.t, self.src.off)
            if not bool(SInt(p) >= 0) or not bool(SInt(p) < self.src.n):
                raise StopIteration
            self.state = 1
            vc.openloops.append(self)
            self.before = {k: fp(v) for k, v in roots(f, self.names).items()}
            self.warned = len(vc.warnings)
            return self.src.at(p)
        if f is not self.frame:
            raise Unsupported("loop over a sequence of symbolic length continued elsewhere")
        self.state = 2
        vc.openloops.remove(self)
        after = roots(f, self.names)
        if len(vc.warnings) != self.warned or set(after) != set(self.before):
            raise Unsupported("loop-carried state")
        for k, v in after.items():
            if fp(v) != self.before[k]:
                raise Unsupported("loop-carried state: %s" % (k[1],))
        raise StopIteration


_loops = {}


def loop_of(f):
    key = (f.f_code, f.f_lasti)
    if key not in _loops:
        r = None
        if not f.f_code.co_flags & 0x2a0:          # no generator, coroutine or async generator
            for ins in dis.get_instructions(f.f_code):
                if ins.offset == f.f_lasti and ins.opname == "FOR_ITER":
                    r = (ins.offset, ins.argval)
        _loops[key] = r
    if _loops[key] is None:
        raise Unsupported("iteration over a sequence of symbolic length outside a for statement")
    return _loops[key]


def assigned(code, start, end):
    out = set()
    for ins in dis.get_instructions(code):
        if start <= ins.offset <= end and (ins.opname.startswith("STORE_") or ins.opname.startswith("DELETE_")):
            if "FAST" in ins.opname:
                out |= set(ins.argval) if isinstance(ins.argval, tuple) else {ins.argval}
            elif "DEREF" in ins.opname or "GLOBAL" in ins.opname or "NAME" in ins.opname:
                raise Unsupported("loop body assigns a non-local variable")
    return out


PLAIN = (int, float, str, bytes, bool, type(None), complex, SNum, sym.SBool, types.BuiltinFunctionType, types.CodeType, type(Ellipsis), slice, range,
         np.generic, tm.T, types.MethodWrapperType, types.MethodDescriptorType, types.WrapperDescriptorType, types.GetSetDescriptorType)


def roots(f, but=()):
    """everything the package can reach from here, by name"""
    out = {}
    d = 0
    while f is not None:
        if "safe_autonomy_dynamics" in f.f_code.co_filename:
            for k, v in f.f_locals.items():
                if d or k not in but:
                    out[(d, k)] = v
        d += 1
        f = f.f_back
    for name, m in E.cur.U.mods.items():
        for k, v in list(m.__dict__.items()):
            if not k.startswith("__"):
                out[(name, k)] = v
    return out


def fp(v):
    """fingerprint of everything reachable from v"""
    out, seen, todo = [], {}, [v]
    while todo:
        x = todo.pop()
        if isinstance(x, PLAIN):
            out.append(("v", x.t.id) if isinstance(x, (SNum, sym.SBool)) else ("p", repr(x)))
            continue
        if id(x) in seen:
            out.append(seen[id(x)])
            continue
        seen[id(x)] = len(seen)
        out.append(type(x).__name__)
        if isgen(x):
            out.append(id(x))
            continue
        if isinstance(x, types.ModuleType):
            out.append(x.__name__)
            continue
        if isinstance(x, np.ndarray):
            todo.extend(np.ndarray.view(x, np.ndarray).reshape(-1).tolist())
            out.append(np.ndarray.shape.__get__(x))
        elif isinstance(x, dict):
            for k, w in list(x.items()):
                out.append(repr(k)[:80])
                todo.append(w)
        elif isinstance(x, (list, tuple)):
            out.append(len(x))
            todo.extend(x)
        elif isinstance(x, (set, frozenset)):
            out.append(tuple(sorted(map(repr, x))))
        elif isinstance(x, types.FunctionType):
            if "safe_autonomy_dynamics" in x.__code__.co_filename:
                todo.extend([x.__defaults__, x.__kwdefaults__, x.__dict__])
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
        elif isinstance(x, types.MethodType):
            todo.extend([x.__self__, x.__func__])
        elif isinstance(x, type):
            if "safe_autonomy_dynamics" in (x.__module__ or ""):
                for k, w in sorted(vars(x).items()):
                    if not k.startswith("__"):
                        out.append(k)
                        todo.append(w)
        elif isinstance(x, (property, classmethod, staticmethod)):
            pass
        elif isinstance(x, (types.GeneratorType, GenIter)) or hasattr(type(x), "__next__"):
            if not isinstance(x, GenIter):
                raise Unsupported("an iterator held while a sequence of symbolic length is traversed")
        elif type(x).__module__.startswith("vf.") and not hasattr(x, "__dict__"):
            out.append(id(x))
        elif hasattr(x, "__dict__"):
            if type(x).__module__.startswith("safe_autonomy_dynamics"):
                for k, w in list(vars(x).items()):
                    out.append(k)
                    todo.append(w)
                for c in type(x).__mro__:
                    for s in getattr(c, "__slots__", ()):
                        todo.append(getattr(x, s, None))
            else:
                out.append(id(x))
        else:
            out.append(id(x))
    return tuple(out)


# ---------------------------------------------------------------- builtins and displays
def vlen(x):
    return x.n if isgen(x) else builtins.len(x)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.range)

    def __call__(cls, *a):
        if E.cur is not None and E.cur.gidx is not None and builtins.any(isinstance(x, SInt) and x.t.k != "c" for x in a):
            if builtins.len(a) == 3:
                if a[2] != 1:
                    raise Unsupported("step in a range of symbolic length")
                a = a[:2]
            return Range(*((0,) + a if builtins.len(a) == 1 else a))
        return builtins.range(*a)


class vrange(metaclass=_RangeMeta):
    pass


def venumerate(x, start=0):
    if isgen(x):
        if not isinstance(start, int):
            raise Unsupported("enumerate with a symbolic start")
        c = Range(start, _n(tm.add(tm.const(start), _i(x.n))))
        z = Zip(c, x)
        z.off = x.off
        return z
    return builtins.enumerate(x, start)


def vzip(*xs, **k):
    if builtins.any(isgen(x) for x in xs):
        if k or not builtins.all(isgen(x) for x in xs):
            raise Unsupported("zip of a sequence of symbolic length with another")
        return Zip(*xs)
    return builtins.zip(*xs, **k)


def lc(x, f):
    """[elt for target in x]: the element at the generic index"""
    vc = E.cur
    if vc.gidx is None:
        raise Unsupported("list display over a sequence of symbolic length")
    if vc.openloops:
        raise Unsupported("nested loops over sequences of symbolic length")
    g = vc.gidx.t
    p = tm.sub(g, x.off)
    none = not bool(SInt(p) >= 0) or not bool(SInt(p) < x.n)
    val = None
    if not none:
        fr = sys._getframe(1)
        rt = roots(fr)
        before = {k: fp(v) for k, v in rt.items()}
        mark = object()
        vc.openloops.append(mark)
        r = f(x.at(p))
        vc.openloops.remove(mark)
        after = roots(fr)
        if set(after) != set(before) or builtins.any(fp(v) != before[k] for k, v in after.items()):
            raise Unsupported("list display with side effects")
        if builtins.len(r) != 1:
            raise Unsupported("filtered list display over a sequence of symbolic length")
        val = r[0]

    def fn(q):
        if not none and q is p:
            return val
        raise Unsupported("element of a list display away from the generic index")
    return Seq(x.n, fn, False, None, x.off)


def nogen(x):
    if isgen(x):
        raise Unsupported("comprehension over a sequence of symbolic length")
    return x
