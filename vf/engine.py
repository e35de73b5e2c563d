"""Verification-condition engine.

A contract harness is one Python function `h(vc)` run in two modes:

* symbolic (class Sym): the real source of /repo, loaded by vf.universe, is executed on symbolic inputs; every branch is
  explored by re-execution over decision prefixes; every `vc.prove` is an obligation discharged under the path condition
  (ring normaliser, then z3).  Straight-line, loop-free-in-the-input code: no unrolling bound is involved unless a harness
  states one.
* concrete (class Con): the same harness drives the real package under CPython/NumPy/SciPy/JAX.  It replays the
  counterexamples of refuted obligations, cross-checks the engine and stands in (bounded) for undecided obligations."""
import importlib
import math
import random
import signal
import sys
import time
import traceback
import warnings as _warnings
from fractions import Fraction as F

import numpy as np

from . import npshim
from . import solve
from . import sym
from . import terms as tm
from .sym import SArr, SBool, SInt, SNum, SReal, Unsupported, base, bterm, term
from .universe import PKG, REPO, Universe


class PathEnd(BaseException):
    pass


class AssumeFail(BaseException):
    pass


class OutOfTime(BaseException):
    pass


class Failed(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


GEN = "generic"


class VarSpec:
    def __init__(self, lo=None, hi=None, mag=None, kind="R", pos=False, nz=False, log=False):
        self.lo, self.hi, self.mag, self.kind, self.pos, self.nz, self.log = lo, hi, mag, kind, pos, nz, log

    def sample(self, rng):
        if self.kind == "B":
            return rng.random() < 0.5
        lo, hi = self.lo, self.hi
        if self.kind == "I":
            return rng.randint(int(lo) if lo is not None else -5, int(hi) if hi is not None else 10)
        for _ in range(50):
            v = self._draw(rng, lo, hi)
            if self.pos and v <= 0 or self.nz and v == 0:
                continue
            if lo is not None and v < lo or hi is not None and v > hi:
                continue
            return v
        return float(hi if hi is not None else lo if lo is not None else 1.0)

    def _draw(self, rng, lo, hi):
        r = rng.random()
        if self.log:
            return float(lo) * (float(hi) / float(lo)) ** r
        m = self.mag or 10.0
        if r < 0.08 and lo is not None:
            return float(lo)
        if r < 0.16 and hi is not None:
            return float(hi)
        if r < 0.22:
            return 0.0
        if r < 0.30:
            return float(rng.randint(-3, 3))
        if lo is not None and hi is not None and r < 0.9:
            return rng.uniform(float(lo), float(hi))
        if self.pos or (lo is not None and hi is None):
            b = float(lo or 0)
            return b + (rng.expovariate(1.0) * m if r < 0.7 else 10 ** rng.uniform(-2, 2))
        return rng.gauss(0, m) if r < 0.65 else rng.gauss(0, 1) if r < 0.85 else rng.gauss(0, m * 50)


def _c(x):
    """bound -> exact term"""
    return term(x)


class Ob:
    def __init__(self, label, soft):
        self.label, self.soft = label, soft
        self.n = 0
        self.proved = 0
        self.backends = {}
        self.refuted = []
        self.unknown = []
        self.time = 0.0


class Run:
    """aggregated result of exploring one harness"""

    def __init__(self, fn, args, deadline, tier="quick", max_paths=4000, timeout_ms=None, seed=1):
        self.fn, self.args, self.deadline, self.tier = fn, args, deadline, tier
        self.max_paths = max_paths
        self.timeout_ms = timeout_ms or solve.OPT["timeout_ms"]
        self.obs = {}
        self.work = []
        self.paths = 0
        self.vacuous = 0
        self.ended = 0
        self.funcs = set()
        self.assumed = set()
        self.unsupported = []
        self.exceptions = []
        self.complete = True
        self.memo = {}
        self.specs = {}
        self.rng = random.Random(seed)
        self.notes = []
        self.canary = None

    def ob(self, label, soft=False):
        o = self.obs.get(label)
        if o is None:
            o = self.obs[label] = Ob(label, soft)
        return o

    def explore(self):
        self.work = [()]
        while self.work:
            if time.time() > self.deadline or self.paths + self.ended >= self.max_paths:
                self.complete = False
                self.notes.append("exploration stopped (%s) after %d paths, %d prefixes left" % (
                    "time" if time.time() > self.deadline else "paths", self.paths, len(self.work)))
                break
            pre = self.work.pop()
            vc = Sym(self, pre)
            sym.E.cur = vc
            try:
                self.fn(vc, *self.args)
                if vc.finish():
                    self.paths += 1
                else:
                    self.vacuous += 1
            except PathEnd:
                self.ended += 1
            except OutOfTime:
                self.complete = False
                self.notes.append("time limit inside a path")
                break
            except Unsupported as ex:
                self.complete = False
                self.unsupported.append("%s @ %s" % (ex, _where(ex)))
                if str(ex).startswith("loop without"):
                    break
            except (tm.SpecialError, tm.PolyBig, RecursionError) as ex:
                self.complete = False
                self.unsupported.append("%s: %s @ %s" % (type(ex).__name__, ex, _where(ex)))
            except Exception as ex:  # noqa: BLE001
                if vc.gidx is not None and _shim_gap(ex):
                    self.complete = False
                    self.unsupported.append("%s: %s @ %s" % (type(ex).__name__, ex, _where(ex)))
                    continue
                if solve.prove(vc.ctx, tm.FALSE, 4000).status == "proved":
                    self.ended += 1        # an infeasible path the quick feasibility test let through
                    continue
                self.complete = False
                m = vc.model()
                self.exceptions.append({"exc": "%s: %s" % (type(ex).__name__, str(ex)[:300]), "where": _where(ex), "env": m, "choices": dict(vc.choices),
                                        "tb": traceback.format_exc()[-3000:]})
                if len(self.exceptions) > 20:
                    break
            finally:
                sym.E.cur = None
        return self


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if "safe_autonomy_dynamics" in f.filename or "/contracts/" in f.filename]
    f = (fr or tb)[-1]
    return "%s:%s" % (f.filename.split("/repo/")[-1], f.lineno)


def _shim_gap(ex):
    """an error that may come from an incomplete stand-in of numpy, pint, ... rather than from the code"""
    if sym.E.cur is not None and getattr(sym.E.cur, "gidx", None) is not None and isinstance(ex, (AttributeError, TypeError, NameError)):
        return True      # a variable carried from one iteration to another, or an operation on a sequence of symbolic length
    if isinstance(ex, AttributeError):
        return type(getattr(ex, "obj", None)).__module__.startswith("vf.")
    if isinstance(ex, (TypeError, NameError)):
        tb = traceback.extract_tb(ex.__traceback__)
        return bool(tb) and "/vf/" in tb[-1].filename
    return False


class VC:
    """operations common to both modes"""
    pi = None

    def q(self, a, b=1):
        raise NotImplementedError


class Sym(VC):
    mode = "sym"
    symbolic = True

    def __init__(self, run, prefix):
        self.run = run
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.ctx = solve.Ctx()
        self.choices = {}
        self.ghost = []
        self.warnings = []
        self.names = {}
        self.nfresh = 0
        self._U = None
        self._stubs = {}
        self.np = npshim.NPModule("numpy")
        self.pi = npshim.pi
        self.inf = npshim.inf
        self.nan = npshim.nan
        self.quant = []
        self.forks = {}
        self.gidx = None
        self.openloops = []
        self.defined = None
        self.tier = run.tier
        self.float = __import__("vf.shims", fromlist=["vfloat"]).vfloat

    # ---- engine protocol used by sym/npshim/shims
    def _tick(self):
        if time.time() > self.run.deadline:
            raise OutOfTime()

    def decide(self, t):
        if t in self.ctx.pcset:
            return True
        n = tm.not_(t)
        if n in self.ctx.pcset:
            return False
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos][:2]
            assert k == "d", "non-deterministic re-execution"
            self.pos += 1
            self.trail.append(("d", v))
            self.ctx.assume(t if v else n)
            return v
        self._tick()
        a = self.ctx.check(t) != "unsat"
        b = self.ctx.check(n) != "unsat"
        if not a and not b:
            raise PathEnd()
        if a and b:
            self._loop_bound()
            self.run.work.append(tuple(self.trail) + (("d", False),))
        v = a
        self.trail.append(("d", v))
        self.ctx.assume(t if v else n)
        return v

    def _loop_bound(self):
        """a loop of the code under contract whose number of iterations is not bounded by the path condition"""
        import sys
        f = sys._getframe(2)
        key = []
        while f is not None and len(key) < 60:
            if "safe_autonomy_dynamics" in f.f_code.co_filename:
                key.append((f.f_code, f.f_lasti))
            f = f.f_back
        if key:
            key = tuple(key)
            k = self.forks[key] = self.forks.get(key, 0) + 1
            if k > 24:
                raise Unsupported("loop without a bound on its iterations")

    def concretize(self, t):
        if t.k == "c":
            return int(t.a)
        while self.pos < len(self.prefix):
            k, v = self.prefix[self.pos][:2]
            assert k in "cn", "non-deterministic re-execution"
            self.pos += 1
            self.trail.append((k, v))
            e = tm.eq(t, tm.const(v))
            if k == "c":
                self.ctx.assume(e)
                return v
            self.ctx.assume(tm.not_(e))
        self._tick()
        nt = sum(1 for k, _ in self.trail if k == "n")
        if nt > 400:
            raise Unsupported("index with too many values")
        v = self._int_value(t)
        if v is None:
            raise PathEnd()
        e = tm.eq(t, tm.const(v))
        if self.ctx.check(tm.not_(e)) != "unsat":
            self.run.work.append(tuple(self.trail) + (("n", v),))
        self.trail.append(("c", v))
        self.ctx.assume(e)
        return v

    def _int_value(self, t):
        s = self.ctx.s
        s.push()
        try:
            self.ctx._intro(s, tm.eq(t, t) if False else tm.le(t, tm.add(t, tm.ONE)), set(self.ctx.seen))
            z = solve.tr(t)
            tmp = tm.lt(t, tm.var("idx!bound"))
            self.ctx._intro(s, tmp, set(self.ctx.seen))
            r = str(s.check())
            if r == "unsat":
                return None
            if r == "sat":
                v = solve.num(s.model().eval(z, model_completion=True))
                if F(v).denominator == 1:
                    return int(v)
        finally:
            s.pop()
        for v in range(-40, 60):
            if self.ctx.check(tm.eq(t, tm.const(v))) == "sat":
                return v
        raise Unsupported("symbolic index without a decidable value")

    def wd(self, cond, what):
        if cond is tm.TRUE or cond in self.ctx.pcset:
            return
        if self.defined and cond is not tm.FALSE:
            self.run.assumed.add("%s: %s" % (what, self.defined))
            self.ctx.assume(cond)
            return
        self._discharge("wd: " + what, cond, True)
        if cond is tm.FALSE:
            return
        self.ctx.assume(cond)

    def unsupported(self, why):
        raise Unsupported(why)

    def assume_defined(self, why):
        """the model's expressions are defined (no zero divisor, tangent pole) where it is evaluated: a stated assumption"""
        self.defined = why

    def fresh_id(self):
        self.nfresh += 1
        return self.nfresh

    def _exists(self, e):
        """truth of "some index satisfies e" (a term about the generic index).  Every fact of the path condition holds at every
        index, so whatever the path condition entails about e at the generic index it entails at all of them."""
        if e.k == "or":
            return tm.or_(*[self._exists(x) for x in e.a])
        if e is tm.FALSE:
            return e
        for e2, a2 in self.quant:
            if e2 is e or self.ctx.check(tm.not_(tm.iff(e, e2))) == "unsat":
                return a2
        a = tm.var("exists@%d" % len(self.quant), "B")
        self.quant.append((e, a))
        self.ctx.assume(tm.implies(e, a))      # the generic index is one of the indices
        # distinct existentials implied by one another
        imp = lambda x, y: self.ctx.check(tm.and_(x, tm.not_(y))) == "unsat"
        for e2, a2 in self.quant[:-1]:
            if imp(e, e2):
                self.ctx.assume(tm.implies(a, a2))
            if imp(e2, e):
                self.ctx.assume(tm.implies(a2, a))
        # an existential that several others cover
        for e1, a1 in self.quant:
            part = [(x, y) for x, y in self.quant if y is not a1 and imp(x, e1)]
            if len(part) > 1 and imp(e1, tm.or_(*[x for x, _ in part])):
                self.ctx.assume(tm.implies(a1, tm.or_(*[y for _, y in part])))
        return a

    def quantify(self, f, el):
        """exists / forall over a symbolic-length vector, from its value at the generic index"""
        ex = f is npshim._or
        b = bterm(el)
        e = b if ex else tm.not_(b)        # exists e
        if e is tm.FALSE:
            return SBool(tm.FALSE if ex else tm.TRUE)
        a = self._exists(e)
        return SBool(a if ex else tm.not_(a))

    # ---- inputs
    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if not k else "%s~%d" % (name, k)

    def real(self, name, lo=None, hi=None, mag=None, pos=False, nz=False, log=False):
        name = self._name(name)
        self.run.specs[name] = VarSpec(lo, hi, mag, "R", pos, nz, log)
        v = tm.var(name)
        if lo is not None:
            self.ctx.assume(tm.le(_c(lo), v))
        if hi is not None:
            self.ctx.assume(tm.le(v, _c(hi)))
        if pos:
            self.ctx.assume(tm.lt(tm.ZERO, v))
        if nz:
            self.ctx.assume(tm.not_(tm.eq(v, tm.ZERO)))
        return SReal(v)

    def int(self, name, lo=None, hi=None):
        name = self._name(name)
        self.run.specs[name] = VarSpec(lo, hi, None, "I")
        v = tm.var(name, "I")
        if lo is not None:
            self.ctx.assume(tm.le(tm.const(lo), v))
        if hi is not None:
            self.ctx.assume(tm.le(v, tm.const(hi)))
        return SInt(v)

    def ints(self, name, n, lo=-9, hi=9):
        """an array of integers (integer element type)"""
        if n is GEN:
            return npshim.varr(self.int(name), "i")
        return npshim.array([self.int("%s%d" % (name, i), None, None) for i in range(n)], dtype=npshim.int64)

    def bool(self, name):
        name = self._name(name)
        self.run.specs[name] = VarSpec(kind="B")
        return SBool(tm.var(name, "B"))

    def vec(self, name, n, **k):
        if n is GEN:
            return npshim.varr(self.real(name, **k))
        return npshim.array([self.real("%s%d" % (name, i), **k) for i in range(n)], dtype=npshim.float64)

    def jarr(self, x):
        """a jax array with the elements of x"""
        return npshim.jarr(x)

    def limit(self, name, sign, **k):
        """a finite limit or +-infinity"""
        b = self.bool(name + "_inf")
        v = self.real(name, **k)
        return SReal(tm.ite(b.t, tm.PINF if sign > 0 else tm.NINF, v.t))

    def limits(self, name, n, **k):
        """element-wise (min, max) arrays with min <= max, each finite or infinite"""
        names = [name] if n is GEN else ["%s%d" % (name, i) for i in range(n)]
        lo, hi = [], []
        for m in names:
            a, b = self.limit(m + "_lo", -1, **k), self.limit(m + "_hi", 1, **k)
            self.assume(a <= b)
            lo.append(a)
            hi.append(b)
        if n is GEN:
            return npshim.varr(lo[0]), npshim.varr(hi[0])
        return npshim.array(lo, dtype=npshim.float64), npshim.array(hi, dtype=npshim.float64)

    def scalar_limits(self, name, **k):
        a, b = self.limit(name + "_lo", -1, **k), self.limit(name + "_hi", 1, **k)
        self.assume(a <= b)
        return a, b

    def some_nan(self, name, v):
        """a symbolic-length vector some of whose components are replaced by NaN"""
        b = self.bool(name)
        self.nonan = v
        return npshim.varr(SReal(tm.ite(b.t, tm.NAN, term(v.el())))), b

    def quat(self, name):
        n = self._name(name)
        vs = [tm.var("%s%d" % (n, i)) for i in range(4)]
        for v in vs:
            self.run.specs[v.a[0]] = VarSpec(-1, 1, 1)
        self.ctx.assume(tm.eq(tm.add(tm.add(tm.power(vs[0], 2), tm.power(vs[1], 2)), tm.add(tm.power(vs[2], 2), tm.power(vs[3], 2))), tm.ONE))
        self.unit4 = vs
        return [SReal(v) for v in vs]

    def choice(self, label, options):
        options = list(options)
        if self.pos < len(self.prefix):
            k, v = self.prefix[self.pos][:2]
            assert k == "k", "non-deterministic re-execution"
            self.pos += 1
        else:
            v = 0
            for i in range(1, len(options)):
                self.run.work.append(tuple(self.trail) + (("k", i),))
        self.trail.append(("k", v))
        self.choices[self._name("choice:" + label)] = v
        return options[v]

    def subset(self, label, items):
        return [x for x in items if self.choice("%s/%s" % (label, x), (False, True))]

    def assume(self, cond):
        b = self._b(cond)
        if b is tm.FALSE or self.ctx.check(b) == "unsat":
            raise PathEnd()
        self.ctx.assume(b)

    # ---- logic
    def _b(self, c):
        if isinstance(c, np.ndarray):
            if isinstance(c, npshim.VArr):
                return bterm(c.el())
            return tm.and_(*[bterm(x) for x in base(c).reshape(-1)])
        if isinstance(c, (list, tuple)):
            return tm.and_(*[self._b(x) for x in c])
        return bterm(c)

    def and_(self, *a):
        return SBool(tm.and_(*[self._b(x) for x in a]))

    def or_(self, *a):
        return SBool(tm.or_(*[self._b(x) for x in a]))

    def not_(self, a):
        return SBool(tm.not_(self._b(a)))

    def implies(self, a, b):
        return SBool(tm.implies(self._b(a), self._b(b)))

    def iff(self, a, b):
        return SBool(tm.iff(self._b(a), self._b(b)))

    def ite(self, c, a, b):
        return SReal(tm.ite(self._b(c), term(a), term(b)))

    def _pair(self, a, b):
        a, b = self.els(a), self.els(b)
        if len(a) != len(b):
            if len(b) == 1:
                b = b * len(a)
            elif len(a) == 1:
                a = a * len(b)
            else:
                return None
        return zip(a, b)

    def eq(self, a, b, tol=None, scale=None):
        p = self._pair(a, b)
        if p is None:
            return SBool(tm.FALSE)
        out = []
        for x, y in p:
            if (isinstance(x, SBool) or isinstance(x, bool)) and (isinstance(y, SBool) or isinstance(y, bool)):
                out.append(tm.iff(bterm(x), bterm(y)))
            else:
                out.append(tm.eq(term(x), term(y)))
        return SBool(tm.and_(*out))

    def le(self, a, b, tol=None):
        p = self._pair(a, b)
        return SBool(tm.FALSE) if p is None else SBool(tm.and_(*[tm.le(term(x), term(y)) for x, y in p]))

    def lt(self, a, b):
        return SBool(tm.and_(*[tm.lt(term(x), term(y)) for x, y in self._pair(a, b)]))

    def close(self, a, b, abs_, rel=0):
        """|a - b| <= abs_ : part of the specification in both modes"""
        d = tm.sub(term(a), term(b))
        return SBool(tm.and_(tm.le(d, term(abs_)), tm.le(tm.neg(d), term(abs_))))

    def same(self, a, b):
        """identical values, exactly (no rounding allowed even concretely; NaN is itself)"""
        p = self._pair(a, b)
        if p is None:
            return SBool(tm.FALSE)
        out = []
        for x, y in p:
            x, y = (x, y) if isinstance(x, SNum) and isinstance(y, SNum) else (SReal(term(x)), SReal(term(y)))
            out.append(tm.or_(tm.eq(x.t, y.t), tm.and_(tm.isnan(x.t), tm.isnan(y.t))))
        return SBool(tm.and_(*out))

    def is_int(self, x):
        t = term(x)
        return SBool(tm.eq(t, tm.floor(t)))

    def q(self, a, b=1):
        return SReal(tm.const(F(a) / F(b)))

    def num(self, s):
        return SReal(tm.const(F(str(s))))

    def els(self, a):
        if isinstance(a, npshim.VArr):
            return [a.el()]
        if isinstance(a, np.ndarray):
            return list(base(a).reshape(-1))
        if isinstance(a, (list, tuple)):
            return [y for x in a for y in self.els(x)]
        return [a]

    def arr(self, x, dtype=None):
        return npshim.array(x, dtype=dtype or npshim.float64)

    def sqrt(self, x):
        return npshim.sqrt(SReal(term(x)))

    def sin(self, x):
        return npshim.sin(SReal(term(x)))

    def cos(self, x):
        return npshim.cos(SReal(term(x)))

    def tan(self, x):
        return npshim.tan(SReal(term(x)))

    def abs(self, x):
        return SReal(tm.absv(term(x)))

    def min(self, a, b):
        return SReal(tm.tmin(term(a), term(b)))

    def max(self, a, b):
        return SReal(tm.tmax(term(a), term(b)))

    def clip(self, x, lo, hi):
        return sym._clip_el(x, lo, hi)

    def floor(self, x):
        return SReal(tm.floor(term(x)))

    def isinf(self, x):
        return SBool(tm.isinf(term(x)))

    def uf(self, name, *args):
        return SReal(tm.fn(name, *[term(x) for a in args for x in self.els(a)]))

    def isolated(self, fn):
        """fn() evaluated on a fresh copy of the package (every path already has its own)"""
        u, self._U = self._U, None
        try:
            return fn()
        finally:
            self._U = u

    def index(self, name, n):
        """the generic position, in a sequence of length n: loops over sequences of symbolic length are verified at it"""
        g = self.int(name, 0)
        self.assume(g < n)
        self.gidx = g
        return g

    # ---- code under verification
    def stub(self, module, func, repl):
        """contract of a callee: repl(original) -> callable used at every call site (symbolic mode only)"""
        self._stubs[(module, func)] = (PKG + "." + module, func, repl)

    @property
    def U(self):
        if self._U is None:
            self._U = Universe(stubs=self._stubs, on_fn=self.run.funcs.add)
        return self._U

    def mod(self, name=""):
        return self.U.load(PKG + ("." + name if name else ""))

    def shim(self, name):
        return self.U.shims[name]

    def raises(self, names, fn):
        names = (names,) if isinstance(names, str) else names
        nopen = len(self.openloops)
        try:
            fn()
            if len(self.openloops) != nopen:
                raise Unsupported("loop over a sequence of symbolic length left early")
        except RecursionError:
            raise
        except Exception as ex:  # noqa: BLE001
            del self.openloops[nopen:]       # the exception leaves the loop it was raised in
            if _shim_gap(ex):
                raise Unsupported("%s: %s" % (type(ex).__name__, str(ex)[:200])) from ex
            return any(c.__name__ in names for c in type(ex).__mro__)
        return False

    def strict_warnings(self, fn):
        """run fn with warnings turned into errors by the user"""
        old, self.warn_error = getattr(self, "warn_error", False), True
        try:
            return fn()
        finally:
            self.warn_error = old

    def count_warnings(self, fn):
        n = len(self.warnings)
        r = fn()
        return r, len(self.warnings) - n

    def copy(self, a):
        return npshim.array(a) if isinstance(a, np.ndarray) else list(a)

    def fresh(self, name, n=None, **k):
        return self.real(name, **k) if n is None else self.vec(name, n, **k)

    def quantity(self, v, unit):
        from . import shims
        return shims.Quantity(v, unit)

    # ---- obligations
    def prove(self, label, cond, soft=False):
        self._discharge(label, self._b(cond), soft)

    def lemma(self, label, cond, soft=False):
        """prove, then use for the rest of the path"""
        b = self._b(cond)
        if self._discharge(label, b, soft):
            self.ctx.assume(b)

    def any(self, xs):
        xs = xs if isinstance(xs, np.ndarray) else npshim.array(xs)
        return npshim.any(xs)

    def _discharge(self, label, goal, soft):
        self._tick()
        run = self.run
        o = run.ob(label, soft)
        key = (label, goal, frozenset(self.ctx.pc))
        if key in run.memo:
            return run.memo[key]
        o.n += 1
        left = max(0.5, run.deadline - time.time())
        r = solve.prove(self.ctx, goal, int(min(run.timeout_ms, left * 1000)))
        o.time += r.time
        if r.status == "proved":
            o.proved += 1
            o.backends[r.backend] = o.backends.get(r.backend, 0) + 1
        elif r.status == "refuted":
            env, why = self._validate(goal, r.model)
            if env is not None:
                if len(o.refuted) < 4:
                    o.refuted.append({"env": env, "choices": dict(self.choices), "goal": tm.show(goal)[:1500], "trail": str(self.trail)[:500]})
                else:
                    o.refuted.append({"env": None})
            else:
                o.unknown.append("refuted, but the counter-model is not a real one (%s)" % why)
                o.unknown_env = (r.model, dict(self.choices))
        else:
            o.unknown.append(r.reason)
        run.memo[key] = r.status == "proved"
        return run.memo[key]

    def _validate(self, goal, model):
        """is there a real point satisfying the path condition and clearly violating the goal?"""
        names = set(tm.free_vars(list(self.ctx.pc) + [goal]))
        rng = self.run.rng

        def draw(n):
            s = self.run.specs.get(n)
            if s is None:
                return (rng.random() < 0.5) if n.startswith("exists@") else F(round(rng.gauss(0, 3), 3))
            v = s.sample(rng)
            return v if isinstance(v, bool) else F(v)
        cands = [dict(model)]
        cands.append({k: (v if isinstance(v, bool) else F(round(float(v) * 16), 16)) for k, v in model.items()})
        for i in range(400):
            c = dict(model)
            for n in names:
                if i % 2 or rng.random() < 0.4:
                    c[n] = draw(n)
            cands.append(c)
        u4 = getattr(self, "unit4", None)
        t0 = time.time()
        for i, c in enumerate(cands):
            if time.time() - t0 > 8:
                break
            for n in names:
                if n not in c:
                    c[n] = draw(n)
            if u4 is not None:
                nm = [v.a[0] for v in u4]
                s = math.sqrt(sum(float(c.get(n, 0)) ** 2 for n in nm))
                if s > 1e-9:
                    for n in nm:
                        c[n] = float(c.get(n, 0)) / s
            memo = {}
            try:
                if any(clear_false(b, c, memo) for b in self.ctx.pc):
                    continue
                if tm.clear(goal, c, memo) is False:
                    return {k: (v if isinstance(v, (bool, int)) else float(v)) for k, v in c.items()}, ""
            except (tm.EvalError, OverflowError, ZeroDivisionError, ValueError, TypeError):
                continue
        return None, "no point found"

    def model(self):
        """a model of the path condition (for exceptions)"""
        try:
            s, m, _ = solve._query(self.ctx.pc, tm.FALSE, 3000)
            return {k: (v if isinstance(v, (bool, int)) else float(v)) for k, v in (m or {}).items()}
        except Exception:  # noqa: BLE001
            return {}

    def finish(self):
        """vacuity: the path condition must not be contradictory"""
        if self.openloops:
            raise Unsupported("loop over a sequence of symbolic length left early")
        if str(self.ctx.s.check()) == "unsat":
            return False
        if self.run.canary is None:
            r = solve.prove(self.ctx, tm.FALSE, 2000)
            self.run.canary = r.status != "proved"
        return True


def clear_false(b, env, memo):
    r = tm.clear(b, env, memo)
    return r is False or (r is None and not tm.evalf(b, env, memo))


# ---------------------------------------------------------------- concrete mode
class Con(VC):
    mode = "con"
    symbolic = False
    np = np
    pi = math.pi
    inf = math.inf
    nan = math.nan
    float = float

    def __init__(self, rng, env=None, choices=None, tier="quick"):
        self.rng = rng                                  # drawn from by contracts: the same when a failing run is repeated with its recorded values
        self._srng = random.Random(rng.random())        # recorded values and choices are drawn from this one
        self.env = env or {}
        self.pick = choices or {}
        self.used = {}
        self.chosen = {}
        self.names = {}
        self.labels = []
        self.tier = tier
        self.ghost = []

    def _name(self, name):
        k = self.names.get(name, 0)
        self.names[name] = k + 1
        return name if not k else "%s~%d" % (name, k)

    def _val(self, name, spec):
        if name in self.env:
            v = self.env[name]
            if spec.kind == "R":
                v = float(v)
                if spec.lo is not None:
                    v = max(v, float(spec.lo))
                if spec.hi is not None:
                    v = min(v, float(spec.hi))
            elif spec.kind == "I":
                v = int(v)
        else:
            v = spec.sample(self._srng)
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, mag=None, pos=False, nz=False, log=False):
        v = self._val(self._name(name), VarSpec(lo, hi, mag, "R", pos, nz, log))
        if pos and not v > 0 or nz and v == 0:
            raise AssumeFail()
        return v

    def int(self, name, lo=None, hi=None):
        return self._val(self._name(name), VarSpec(lo, hi, None, "I"))

    def ints(self, name, n, lo=-9, hi=9):
        if n is GEN:
            n = self.gdim()
            return np.array([self.int(name if i == 0 else "%s%d" % (name, i), lo, hi) for i in range(n)], dtype=np.int64)
        return np.array([self.int("%s%d" % (name, i), lo, hi) for i in range(n)], dtype=np.int64)

    def bool(self, name):
        return bool(self._val(self._name(name), VarSpec(kind="B")))

    def gdim(self):
        if not hasattr(self, "_gd"):
            self._gd = self.int("generic_dim", 1, 4)
        return self._gd

    def vec(self, name, n, **k):
        if n is GEN:
            n = self.gdim()
            # the generic element of a counterexample becomes element 0
            return np.array([self.real(name if i == 0 else "%s%d" % (name, i), **k) for i in range(n)], dtype=np.float64)
        return np.array([self.real("%s%d" % (name, i), **k) for i in range(n)], dtype=np.float64)

    def jarr(self, x):
        import jax.numpy as jnp
        return jnp.array(x)

    def limit(self, name, sign, **k):
        b = self.bool(name + "_inf")
        v = self.real(name, **k)
        return (math.inf if sign > 0 else -math.inf) if b else v

    def limits(self, name, n, **k):
        if n is GEN:
            names = [name if i == 0 else "%s%d" % (name, i) for i in range(self.gdim())]
        else:
            names = ["%s%d" % (name, i) for i in range(n)]
        lo, hi = [], []
        for m in names:
            a, b = self.limit(m + "_lo", -1, **k), self.limit(m + "_hi", 1, **k)
            if not a <= b:
                a, b = b, a
                if math.isinf(a) or math.isinf(b):
                    a, b = (-math.inf if math.isinf(a) else a), (math.inf if math.isinf(b) else b)
            lo.append(a)
            hi.append(b)
        return np.array(lo, dtype=np.float64), np.array(hi, dtype=np.float64)

    def scalar_limits(self, name, **k):
        a, b = self.limits(name + "_s", 1, **k) if name + "_lo" not in self.env and name + "_lo_inf" not in self.env else (None, None)
        if a is not None:
            return float(a[0]), float(b[0])
        a, b = self.limit(name + "_lo", -1, **k), self.limit(name + "_hi", 1, **k)
        if not a <= b:
            raise AssumeFail()
        return a, b

    def some_nan(self, name, v):
        b = self.bool(name)
        m = [b] + [self.rng.random() < 0.5 for _ in range(len(v) - 1)]
        return np.where(m, np.nan, v), m

    def quat(self, name):
        n = self._name(name)
        v = [self._val("%s%d" % (n, i), VarSpec(-1, 1, 1)) for i in range(4)]
        s = math.sqrt(sum(x * x for x in v))
        if s < 1e-6:
            raise AssumeFail()
        return [x / s for x in v]

    def choice(self, label, options):
        options = list(options)
        n = self._name("choice:" + label)
        i = self.pick[n] if n in self.pick and self.pick[n] < len(options) else self._srng.randrange(len(options))
        self.chosen[n] = i
        return options[i]

    def subset(self, label, items):
        return [x for x in items if self.choice("%s/%s" % (label, x), (False, True))]

    def assume(self, cond):
        if not self._b(cond):
            raise AssumeFail()

    def _b(self, c):
        if isinstance(c, (list, tuple)):
            return all(self._b(x) for x in c)
        return bool(np.all(c))

    def and_(self, *a):
        return all(self._b(x) for x in a)

    def or_(self, *a):
        return any(self._b(x) for x in a)

    def not_(self, a):
        return not self._b(a)

    def implies(self, a, b):
        return (not self._b(a)) or self._b(b)

    def iff(self, a, b):
        return self._b(a) == self._b(b)

    def ite(self, c, a, b):
        return a if self._b(c) else b

    def _tol(self, x, y, tol, scale):
        return (2e-5 if tol is None else tol) * (1 + max(abs(x), abs(y)) if scale is None else 1 + max(abs(x), abs(y), abs(scale)))

    def _pair(self, a, b):
        a, b = self.els(a), self.els(b)
        if len(a) != len(b):
            if len(b) == 1:
                b = b * len(a)
            elif len(a) == 1:
                a = a * len(b)
            else:
                return None
        return zip(a, b)

    def eq(self, a, b, tol=None, scale=None):
        p = self._pair(a, b)
        if p is None:
            return False
        for x, y in p:
            if isinstance(x, (bool, np.bool_)) and isinstance(y, (bool, np.bool_)):
                if bool(x) != bool(y):
                    return False
                continue
            x, y = float(x), float(y)
            if x == y:
                continue
            if not abs(x - y) <= self._tol(x, y, tol, scale) or math.isinf(x) or math.isinf(y):
                return False
        return True

    def le(self, a, b, tol=None):
        for x, y in self._pair(a, b):
            x, y = float(x), float(y)
            if not (x <= y or x - y <= self._tol(x, y, 1e-6 if tol is None else tol, None)):
                return False
        return True

    def lt(self, a, b):
        return all(float(x) < float(y) for x, y in self._pair(a, b))

    def close(self, a, b, abs_, rel=0):
        return abs(float(a) - float(b)) <= float(abs_) * (1 + 1e-6) + 1e-9

    def same(self, a, b):
        p = self._pair(a, b)
        return p is not None and all(float(x) == float(y) or (x != x and y != y) for x, y in p)

    def is_int(self, x):
        return abs(float(x) - round(float(x))) <= 1e-5 * (1 + abs(float(x)))

    def q(self, a, b=1):
        return a / b

    def num(self, s):
        return float(s)

    def els(self, a):
        if isinstance(a, (list, tuple)):
            return [y for x in a for y in self.els(x)]
        if hasattr(a, "shape") and getattr(a, "ndim", 0):
            return [v for v in np.asarray(a).reshape(-1)]
        return [a]

    def arr(self, x, dtype=None):
        return np.array(x, dtype=dtype or np.float64)

    def sqrt(self, x):
        return math.sqrt(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def tan(self, x):
        return math.tan(x)

    def abs(self, x):
        return abs(x)

    def min(self, a, b):
        return a if a <= b else b

    def max(self, a, b):
        return a if a >= b else b

    def clip(self, x, lo, hi):
        x = lo if lo is not None and x < lo else x
        return hi if hi is not None and x > hi else x

    def floor(self, x):
        return math.floor(x)

    def isinf(self, x):
        return math.isinf(x)

    def stub(self, *a):
        pass

    def mod(self, name=""):
        return importlib.import_module(PKG + ("." + name if name else ""))

    def raises(self, names, fn):
        names = (names,) if isinstance(names, str) else names
        try:
            fn()
        except Exception as ex:  # noqa: BLE001
            return any(c.__name__ in names for c in type(ex).__mro__)
        return False

    def strict_warnings(self, fn):
        with _warnings.catch_warnings():
            _warnings.simplefilter("error", UserWarning)
            return fn()

    def count_warnings(self, fn):
        with _warnings.catch_warnings(record=True) as w:
            _warnings.simplefilter("always")
            r = fn()
        return r, len([x for x in w if issubclass(x.category, UserWarning)])

    def copy(self, a):
        return np.array(a) if isinstance(a, np.ndarray) else list(a)

    def fresh(self, name, n=None, **k):
        return self.real(name, **k) if n is None else self.vec(name, n, **k)

    def quantity(self, v, unit):
        import pint
        return pint.Quantity(v, unit)

    def prove(self, label, cond, soft=False):
        self.labels.append(label)
        if soft:
            return
        if not self._b(cond):
            raise Failed(label)

    lemma = prove

    def any(self, xs):
        return bool(np.any(xs))

    def uf(self, name, *args):
        raise Unsupported("uninterpreted function in concrete mode")

    def isolated(self, fn):
        """fn() evaluated in a forked child of the untouched process (call it first); only plain results come back"""
        ok, r = forked(fn)
        if not ok:
            raise Unsupported("isolated evaluation: %s %s" % r)
        return r

    def assume_defined(self, why):
        pass

    def unsupported(self, why):
        raise Unsupported(why)

    def finish(self):
        pass


def _alarm(*a):
    raise AssumeFail()


def forked(fn):
    """fn() in a forked child: whatever it changes in this process stays there; its result comes back pickled"""
    import os
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException as ex:  # noqa: BLE001
                out = (False, (type(ex).__name__, str(ex)))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (False, ("EOFError", "child died"))


def concrete(fn, args, seed, env=None, choices=None, tier="quick", isolate=False):
    """one concrete run; returns dict(status ok|fail|skip|error...)"""
    if isolate:
        ok, r = forked(lambda: concrete(fn, args, seed, env, choices, tier))
        return r if ok else {"status": "skip", "why": "isolated run: %s %s" % r}
    rng = random.Random(seed)
    vc = Con(rng, env, choices, tier)
    sym.E.cur = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 10)
    try:
        with _warnings.catch_warnings():
            _warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                fn(vc, *args)
        return {"status": "ok", "labels": vc.labels, "env": vc.used, "choices": vc.chosen}
    except AssumeFail:
        return {"status": "skip"}
    except Failed as f:
        return {"status": "fail", "label": f.label, "env": vc.used, "choices": vc.chosen, "detail": f.detail, "seed": seed}
    except Unsupported as ex:
        return {"status": "skip", "why": str(ex)}
    except Exception as ex:  # noqa: BLE001
        # (an ImportError that the code raises itself, with no module name, is a failure like any other)
        if (isinstance(ex, ImportError) and ex.name is not None) or (isinstance(ex, AttributeError) and "module '" in str(ex)):
            return {"status": "skip", "why": "interface changed: %s" % ex}
        tb = traceback.extract_tb(ex.__traceback__)
        if not any("safe_autonomy_dynamics" in f.filename or "site-packages" in f.filename for f in tb[1:]) and not isinstance(ex, (KeyError, AttributeError)):
            pass
        return {"status": "fail", "label": "exception %s" % type(ex).__name__, "env": vc.used, "choices": vc.chosen,
                "detail": traceback.format_exc()[-2500:], "seed": seed}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
