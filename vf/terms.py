"""Hash-consed term language of the verifier: exact rationals, reals, integers, booleans.

Terms are immutable and interned.  Real terms are kept as linear combinations of power products
("sum"/"prod"); full polynomial normal forms (with sin^2 = 1-cos^2 and sqrt^2 reduction) are computed on demand.
Machine floating point is treated as mathematical reals (a documented assumption).
"""
import math
from fractions import Fraction as F

_tab = {}
_cnt = [0]


class T:
    __slots__ = ("k", "a", "id", "sp", "srt", "nf", "ites", "dep")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def _mk(k, a, srt, sp=False, dep=0):
    key = (k, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.k = k
        t.a = a
        t.srt = srt
        t.sp = sp
        t.nf = None
        t.ites = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[key] = t
    return t


# ---------------------------------------------------------------- leaves
def const(v):
    if type(v) is not F:
        v = F(v)
    return _mk("c", v, "R")


ZERO = const(0)
ONE = const(1)
PINF = _mk("inf", 1, "R", True)
NINF = _mk("inf", -1, "R", True)
NAN = _mk("nan", 0, "R", True)
TRUE = _mk("b", True, "B")
FALSE = _mk("b", False, "B")


def var(name, srt="R"):
    """srt R (real) I (integer) B (boolean)"""
    return _mk("v", (name, srt), "B" if srt == "B" else srt)


def is_const(t):
    return t.k == "c"


def is_int_term(t):
    """Is the value of this real-valued term always an integer?"""
    if t.k == "c":
        return t.a.denominator == 1
    if t.k == "v":
        return t.a[1] == "I"
    if t.k == "floor":
        return True
    if t.k == "ite":
        return is_int_term(t.a[1]) and is_int_term(t.a[2])
    if t.k == "sum":
        return t.a[0].denominator == 1 and all(c.denominator == 1 and is_int_term(x) for x, c in t.a[1])
    if t.k == "prod":
        return all(e > 0 and is_int_term(b) for b, e in t.a)
    return False


def has_special_leaf(t):
    return t.sp


# ---------------------------------------------------------------- sums / products
def _as_lin(t):
    """(const, ((term, coeff), ...))"""
    if t.k == "c":
        return t.a, ()
    if t.k == "sum":
        return t.a
    return F(0), ((t, F(1)),)


def _mk_lin(c, d):
    items = tuple(sorted(((t, v) for t, v in d.items() if v != 0), key=lambda p: p[0].id))
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("sum", (c, items), "R")


def _dist1(f, t):
    """apply f through the ites of special term t"""
    if t.k == "ite" and t.sp:
        return ite(t.a[0], _dist1(f, t.a[1]), _dist1(f, t.a[2]))
    return f(t)


def _dist2(f, x, y):
    return _dist1(lambda a: _dist1(lambda b: f(a, b), y), x)


class SpecialError(BaseException):
    pass


def _add_sp(x, y):
    if x.k == "nan" or y.k == "nan":
        return NAN
    if x.k == "inf":
        if y.k == "inf" and x.a != y.a:
            return NAN
        return x
    if y.k == "inf":
        return y
    return add(x, y)


def add(x, y):
    if x.sp or y.sp:
        if (x.k == "ite" and x.sp) or (y.k == "ite" and y.sp):
            return _dist2(_add_sp, x, y)
        return _add_sp(x, y)
    if x.k == "c" and x.a == 0:
        return y
    if y.k == "c" and y.a == 0:
        return x
    cx, lx = _as_lin(x)
    cy, ly = _as_lin(y)
    d = dict(lx)
    for t, v in ly:
        d[t] = d.get(t, 0) + v
    return _mk_lin(cx + cy, d)


def scale(c, t):
    c = F(c)
    if t.sp:
        return mul(const(c), t)
    if c == 1:
        return t
    k, l = _as_lin(t)
    return _mk_lin(c * k, {x: c * v for x, v in l})


def neg(t):
    return scale(-1, t)


def sub(x, y):
    return add(x, neg(y))


def _mul_sp(x, y):
    if x.k == "nan" or y.k == "nan":
        return NAN
    if x.k == "inf" and y.k == "inf":
        return PINF if x.a * y.a > 0 else NINF
    if y.k == "inf":
        x, y = y, x
    if x.k == "inf":
        if y.k == "c":
            if y.a == 0:
                return NAN
            return x if y.a > 0 else (NINF if x.a > 0 else PINF)
        p = lt(ZERO, y)
        z = eq(y, ZERO)
        return ite(z, NAN, ite(p, x, NINF if x.a > 0 else PINF))
    return mul(x, y)


def _split_coeff(t):
    """t = c * m with m canonical"""
    if t.k == "c":
        return t.a, None
    if t.k == "sum":
        k, l = t.a
        if k == 0 and len(l) == 1:
            return l[0][1], l[0][0]
        lead = l[0][1]
        if lead != 1:
            return lead, _mk_lin(k / lead, {x: v / lead for x, v in l})
        return F(1), t
    return F(1), t


def mul(x, y):
    if x.sp or y.sp:
        if (x.k == "ite" and x.sp) or (y.k == "ite" and y.sp):
            return _dist2(_mul_sp, x, y)
        return _mul_sp(x, y)
    if x.k == "c":
        return scale(x.a, y)
    if y.k == "c":
        return scale(y.a, x)
    cx, mx = _split_coeff(x)
    cy, my = _split_coeff(y)
    d = {}
    for m in (mx, my):
        for b, e in (m.a if m.k == "prod" else ((m, 1),)):
            d[b] = d.get(b, 0) + e
    return scale(cx * cy, _mk_prod(d))


def _mk_prod(d):
    items = tuple(sorted(((b, e) for b, e in d.items() if e), key=lambda p: p[0].id))
    if not items:
        return ONE
    if len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return _mk("prod", items, "R")


def _inv_sp(t):
    if t.k == "nan":
        return NAN
    if t.k == "inf":
        return ZERO
    return inv(t)


def inv(t):
    if t.sp:
        return _dist1(_inv_sp, t)
    if t.k == "c":
        if t.a == 0:
            raise ZeroDivisionError("division by zero")
        return const(1 / t.a)
    c, m = _split_coeff(t)
    if m.k == "prod":
        d = {b: -e for b, e in m.a}
    else:
        d = {m: -1}
    return scale(1 / c, _mk_prod(d))


def div(x, y):
    return mul(x, inv(y))


def power(t, n):
    if t.sp:
        r = ONE
        for _ in range(abs(n)):
            r = mul(r, t)
        return r if n >= 0 else inv(r)
    if n == 0:
        return ONE
    if t.k == "c":
        return const(t.a ** n)
    c, m = _split_coeff(t)
    if m is None:
        return const(c ** n)
    d = {b: e * n for b, e in (m.a if m.k == "prod" else ((m, 1),))}
    return scale(c ** n, _mk_prod(d))


# ---------------------------------------------------------------- functions
ODD = {"sin", "tan", "asin", "atan"}
EVEN = {"cos"}


def _lead_neg(t):
    p = nf(t)
    if not p:
        return False
    m = min(p, key=_mono_sort)
    return p[m] < 0


def _mono_sort(m):
    return (len(m), m)


INVERSE = {("sin", "asin"), ("cos", "acos"), ("tan", "atan")}


def fn(name, *args):
    args = list(args)
    for i, t in enumerate(args):
        if t.sp:
            if t.k == "ite":
                return ite(t.a[0], fn(name, *args[:i], t.a[1], *args[i + 1:]), fn(name, *args[:i], t.a[2], *args[i + 1:]))
            if name in ("sin", "cos", "tan", "sqrt"):
                return NAN if name != "sqrt" or t.k == "nan" else t
            raise SpecialError(name)
    if name in ("sin", "cos", "tan", "sqrt", "asin", "atan", "exp", "log", "acos", "atan2", "rpow"):
        if len(args) == 1:
            t = args[0]
            if t.k == "ite" and t.a[1].k == "c" and t.a[2].k == "c":
                return ite(t.a[0], fn(name, t.a[1]), fn(name, t.a[2]))
            if t.k == "c":
                if t.a == 0 and name in ("sin", "tan", "asin", "atan", "sqrt"):
                    return ZERO
                if t.a == 0 and name in ("cos", "exp"):
                    return ONE
                if name == "sqrt":
                    n, d = math.isqrt(abs(t.a.numerator)), math.isqrt(t.a.denominator)
                    if t.a >= 0 and n * n == t.a.numerator and d * d == t.a.denominator:
                        return const(F(n, d))
            if name in ODD and _lead_neg(t):
                return neg(fn(name, neg(t)))
            if t.k == "fn" and (name, t.a[0]) in INVERSE:
                return t.a[1][0]
            if name in EVEN and _lead_neg(t):
                return fn(name, neg(t))
        key = ("fn", name, tuple(nfkey(t) for t in args))
        got = _fncanon.get(key)
        if got is None:
            got = _mk("fn", (name, tuple(args)), "R")
            _fncanon[key] = got
        return got
    key = ("fn", name, tuple(nfkey(t) if t.srt != "B" else t for t in args))
    got = _fncanon.get(key)
    if got is None:
        got = _mk("fn", (name, tuple(args)), "R")
        _fncanon[key] = got
    return got


_fncanon = {}


def floor(t):
    if t.sp:
        return _dist1(lambda x: x if x.k in ("inf", "nan") else floor(x), t)
    if t.k == "c":
        return const(math.floor(t.a))
    if is_int_term(t):
        return t
    if t.k == "ite":
        return ite(t.a[0], floor(t.a[1]), floor(t.a[2]))
    k, l = _as_lin(t)
    ik = F(0)
    rest = {}
    intpart = {}
    for x, v in l:
        if v.denominator == 1 and is_int_term(x):
            intpart[x] = v
        else:
            rest[x] = v
    ik = F(math.floor(k))
    base = _mk_lin(k - ik, rest)
    if base.k == "c":
        fl = const(math.floor(base.a))
    else:
        key = ("floor", nfkey(base))
        fl = _fncanon.get(key)
        if fl is None:
            fl = _mk("floor", (base,), "R")
            _fncanon[key] = fl
    return add(fl, _mk_lin(ik, intpart))


def mod(x, m):
    """Python/numpy floating modulo (result has the sign of m), exact reals."""
    return sub(x, mul(m, floor(div(x, m))))


# ---------------------------------------------------------------- booleans
def not_(b):
    if b.k == "b":
        return FALSE if b.a else TRUE
    if b.k == "not":
        return b.a[0]
    if b.k == "lt":   # d < 0  ->  -d <= 0
        return _cmp("le", neg(b.a[0]))
    if b.k == "le":
        return _cmp("lt", neg(b.a[0]))
    if b.k == "and":
        return or_(*[not_(x) for x in b.a])
    if b.k == "or":
        return and_(*[not_(x) for x in b.a])
    return _mk("not", (b,), "B")


def and_(*xs):
    s = []
    seen = set()
    for x in xs:
        for y in (x.a if x.k == "and" else (x,)):
            if y is TRUE or y in seen:
                continue
            if y is FALSE:
                return FALSE
            seen.add(y)
            s.append(y)
    for y in s:
        if not_(y) in seen if y.k not in ("and", "or") else False:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return s[0]
    return _mk("and", tuple(sorted(s, key=lambda t: t.id)), "B")


def or_(*xs):
    s = []
    seen = set()
    for x in xs:
        for y in (x.a if x.k == "or" else (x,)):
            if y is FALSE or y in seen:
                continue
            if y is TRUE:
                return TRUE
            seen.add(y)
            s.append(y)
    for y in s:
        if y.k not in ("and", "or") and not_(y) in seen:
            return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return s[0]
    return _mk("or", tuple(sorted(s, key=lambda t: t.id)), "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a.k == "b":
        return b if a.a else not_(b)
    if b.k == "b":
        return a if b.a else not_(a)
    if a is not_(b):
        return FALSE
    return and_(implies(a, b), implies(b, a))


def bite(c, a, b):
    if a is b:
        return a
    return or_(and_(c, a), and_(not_(c), b))


_primcache = {}


def _prim(d, sign_too):
    """scale the linear form d to a canonical positive (or any if sign_too) multiple"""
    k, l = _as_lin(d)
    lead = l[0][1]
    f = lead if sign_too else abs(lead)
    return scale(1 / f, d)


def _cmp(op, d):
    if d.k == "c":
        v = d.a
        r = v == 0 if op == "eq" else v < 0 if op == "lt" else v <= 0
        return TRUE if r else FALSE
    if d.k == "ite" and (d.a[1].k == "c" or d.a[2].k == "c"):
        return bite(d.a[0], _cmp(op, d.a[1]), _cmp(op, d.a[2]))
    d = _prim(d, op == "eq")
    if op == "lt" and is_int_term(d):       # integers: d < 0 iff d + 1 <= 0
        op, d = "le", add(d, ONE)
    return _mk(op, (d,), "B")


def _sgnval(t):
    return t.a


def _cmp_sp(op):
    def f(x, y):
        if x.k == "nan" or y.k == "nan":
            return FALSE
        xv = x.a if x.k == "inf" else 0
        yv = y.a if y.k == "inf" else 0
        if xv == 0 and yv == 0:
            return _cmp(op, sub(x, y))
        r = xv == yv if op == "eq" else xv < yv if op == "lt" else xv <= yv
        return TRUE if r else FALSE
    return f


def _distb(f, x, y):
    if x.k == "ite" and x.sp:
        return bite(x.a[0], _distb(f, x.a[1], y), _distb(f, x.a[2], y))
    if y.k == "ite" and y.sp:
        return bite(y.a[0], _distb(f, x, y.a[1]), _distb(f, x, y.a[2]))
    return f(x, y)


def eq(x, y):
    if x.sp or y.sp:
        return _distb(_cmp_sp("eq"), x, y)
    return _cmp("eq", sub(x, y))


def lt(x, y):
    if x.sp or y.sp:
        return _distb(_cmp_sp("lt"), x, y)
    return _cmp("lt", sub(x, y))


def le(x, y):
    if x.sp or y.sp:
        return _distb(_cmp_sp("le"), x, y)
    return _cmp("le", sub(x, y))


def isnan(t):
    if t.k == "nan":
        return TRUE
    if t.k == "ite" and t.sp:
        return bite(t.a[0], isnan(t.a[1]), isnan(t.a[2]))
    return FALSE


def isinf(t):
    if t.k == "inf":
        return TRUE
    if t.k == "ite" and t.sp:
        return bite(t.a[0], isinf(t.a[1]), isinf(t.a[2]))
    return FALSE


# ---------------------------------------------------------------- ite
def _assume(t, c, depth=0):
    """simplify ite t knowing condition c (cheap, syntactic)"""
    if t.k != "ite" or depth > 6:
        return t
    lits = set(c.a) if c.k == "and" else {c}
    d = t.a[0]
    if d in lits:
        return _assume(t.a[1], c, depth + 1)
    nd = not_(d)
    if nd in lits:
        return _assume(t.a[2], c, depth + 1)
    if d.k == "and":
        if any(not_(x) in lits for x in d.a):
            return _assume(t.a[2], c, depth + 1)
        if all(x in lits for x in d.a):
            return _assume(t.a[1], c, depth + 1)
    if d.k == "or":
        if any(x in lits for x in d.a):
            return _assume(t.a[1], c, depth + 1)
        if all(not_(x) in lits for x in d.a):
            return _assume(t.a[2], c, depth + 1)
    if t.sp:
        a = _assume(t.a[1], c, depth + 1)
        b = _assume(t.a[2], c, depth + 1)
        if a is not t.a[1] or b is not t.a[2]:
            return ite(d, a, b)
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.srt == "B":
        return bite(c, a, b)
    a = _assume(a, c)
    b = _assume(b, not_(c))
    if a is b:
        return a
    if c.k == "not":
        return ite(c.a[0], b, a)
    return _mk("ite", (c, a, b), "R", a.sp or b.sp)


def absv(t):
    return ite(lt(t, ZERO), neg(t), t)


def tmin(a, b):
    return ite(lt(b, a), b, a)


def tmax(a, b):
    return ite(lt(a, b), b, a)


# ---------------------------------------------------------------- polynomial normal form
# atoms: index -> descriptor term.  A polynomial is dict {mono: Fraction}; mono = tuple of (atom, exp)
_atoms = {}
_atominfo = []
_sincos = {}


def _atom(key, info):
    i = _atoms.get(key)
    if i is None:
        i = len(_atominfo)
        _atoms[key] = i
        _atominfo.append(info)
    return i


def _mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for b, e in m2:
        n = d.get(b, 0) + e
        if n:
            d[b] = n
        else:
            d.pop(b, None)
    return tuple(sorted(d.items()))


class PolyBig(BaseException):
    pass


MAXMONO = 60000


def padd(p, q):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pscale(c, p):
    return {m: c * v for m, v in p.items()} if c else {}


def pmul(p, q):
    if len(p) * len(q) > 3000000:
        raise PolyBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = _mono_mul(m1, m2)
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    r = preduce(r)
    if len(r) > MAXMONO:
        raise PolyBig()
    return r


def preduce(p):
    """sin(a)^2 -> 1 - cos(a)^2 ; sqrt(t)^2 -> t"""
    todo = [(m, c) for m, c in p.items() if any(e >= 2 and b in _sincos for b, e in m)]
    if not todo:
        return p
    r = dict(p)
    while todo:
        new = {}
        for m, c in todo:
            r.pop(m, None)
        for m, c in todo:
            for b, e in m:
                if e >= 2 and b in _sincos:
                    break
            rest = _mono_mul(m, ((b, -2),))
            for m2, c2 in _sincos[b].items():
                mm = _mono_mul(rest, m2)
                new[mm] = new.get(mm, 0) + c * c2
        todo = []
        for m, c in new.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        todo = [(m, c) for m, c in r.items() if any(e >= 2 and b in _sincos for b, e in m)]
    return r


def ppow(p, n):
    r = {(): F(1)}
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def nf(t):
    """normal form polynomial of a (non special) real term"""
    if t.nf is not None:
        return t.nf
    k = t.k
    if k == "c":
        r = {(): t.a} if t.a else {}
    elif k == "sum":
        c, l = t.a
        r = {(): c} if c else {}
        for x, v in l:
            for m, w in nf(x).items():
                n = r.get(m, 0) + v * w
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
    elif k == "prod":
        r = {(): F(1)}
        for b, e in t.a:
            p = nf(b)
            if e > 0:
                r = pmul(r, ppow(p, e))
            else:
                r = pmul(r, _pinv(p, -e))
    elif k == "fn":
        name, args = t.a
        if t.sp or any(a.sp for a in args):
            raise SpecialError()
        i = _atom(("t", t.id), t)
        if name == "sin" and i not in _sincos:
            ci = fn("cos", *args)
            if ci.k == "fn":
                j = _atom(("t", ci.id), ci)
                _sincos[i] = {(): F(1), ((j, 2),): F(-1)}
        if name == "sqrt" and i not in _sincos:
            _sincos[i] = nf(args[0])
        r = {((i, 1),): F(1)}
    else:
        if t.sp:
            raise SpecialError(show(t))
        i = _atom(("t", t.id), t)
        r = {((i, 1),): F(1)}
    t.nf = r
    return r


def _pinv(p, e):
    if not p:
        raise ZeroDivisionError("division by a term that is identically zero")
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((b, -x * e) for b, x in m): 1 / c ** e}
    lead = min(p, key=_mono_sort)
    c = p[lead]
    q = {m: v / c for m, v in p.items()}
    i = _atom(("inv", frozenset(q.items())), ("inv", q))
    return {((i, e),): 1 / c ** e}


def nfkey(t):
    if t.sp:
        return ("sp", t.id)
    return frozenset(nf(t).items())


def clear_denoms(p):
    """numerator polynomial: multiply away inv-atoms and negative exponents (all denominators are nonzero)"""
    for _ in range(50):
        invs = {}
        negs = {}
        for m in p:
            for b, e in m:
                if isinstance(_atominfo[b], tuple):
                    if e > invs.get(b, 0):
                        invs[b] = e
                elif e < 0 and -e > negs.get(b, 0):
                    negs[b] = -e
        if negs:
            mm = tuple(sorted(negs.items()))
            p = preduce({_mono_mul(m, mm): c for m, c in p.items()})
            continue
        if not invs:
            return p
        b, emax = max(invs.items())
        q = _atominfo[b][1]
        pw = {0: {(): F(1)}}
        r = {}
        groups = {}
        for m, c in p.items():
            e = dict(m).get(b, 0)
            rest = tuple(x for x in m if x[0] != b)
            groups.setdefault(emax - e, {})[rest] = c
        for e, g in groups.items():
            if e not in pw:
                pw[e] = ppow(q, e)
            r = padd(r, pmul(g, pw[e]))
        p = r
    return p


def is_zero(t):
    """ring decision: is t identically zero (given all its denominators nonzero)?"""
    p = nf(t)
    if not p:
        return True
    return not clear_denoms(p)


def poly_atoms(p):
    out = set()
    for m in p:
        for b, _ in m:
            i = _atominfo[b]
            if isinstance(i, tuple):
                out |= poly_atoms(i[1])
            else:
                out.add(i)
    return out


# ---------------------------------------------------------------- traversal
def children(t):
    k = t.k
    if k == "sum":
        return [x for x, _ in t.a[1]]
    if k == "prod":
        return [x for x, _ in t.a]
    if k == "fn":
        return list(t.a[1])
    if k in ("ite", "not", "and", "or", "lt", "le", "eq", "floor"):
        return list(t.a)
    if k == "forall" or k == "exists":
        return [t.a[1]]
    return []


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


def find_conds(t):
    """conditions of ites occurring in t (outermost first), cached"""
    if t.ites is not None:
        return t.ites
    out = []
    seen = set()
    st = [t]
    while st:
        x = st.pop(0)
        if x in seen:
            continue
        seen.add(x)
        if x.k == "ite":
            if x.a[0] not in out:
                out.append(x.a[0])
        st.extend(children(x))
    t.ites = out
    return out


def subst(t, mp, memo=None):
    """replace boolean conditions / variables by terms (mp: term -> term)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in mp:
        r = mp[t]
    else:
        k = t.k
        if k == "sum":
            c, l = t.a
            r = const(c)
            for x, v in l:
                r = add(r, scale(v, subst(x, mp, memo)))
        elif k == "prod":
            r = ONE
            for b, e in t.a:
                r = mul(r, power(subst(b, mp, memo), e))
        elif k == "fn":
            r = fn(t.a[0], *[subst(x, mp, memo) for x in t.a[1]])
        elif k == "floor":
            r = floor(subst(t.a[0], mp, memo))
        elif k == "ite":
            c = subst(t.a[0], mp, memo)
            if c is TRUE:
                r = subst(t.a[1], mp, memo)
            elif c is FALSE:
                r = subst(t.a[2], mp, memo)
            else:
                r = ite(c, subst(t.a[1], mp, memo), subst(t.a[2], mp, memo))
        elif k == "not":
            r = not_(subst(t.a[0], mp, memo))
        elif k == "and":
            r = and_(*[subst(x, mp, memo) for x in t.a])
        elif k == "or":
            r = or_(*[subst(x, mp, memo) for x in t.a])
        elif k in ("lt", "le", "eq"):
            d = subst(t.a[0], mp, memo)
            if d.sp:
                r = {"lt": lt, "le": le, "eq": eq}[k](d, ZERO)
            else:
                r = _cmp(k, d)
        else:
            r = t
    memo[t] = r
    return r


# ---------------------------------------------------------------- numeric evaluation
class EvalError(Exception):
    pass


def evalf(t, env, memo=None):
    """numeric evaluation; env: var name -> number.  Exact (Fraction) as long as no transcendental function is met"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    k = t.k
    if k == "c":
        r = t.a
    elif k == "b":
        r = t.a
    elif k == "inf":
        r = math.inf * t.a
    elif k == "nan":
        r = math.nan
    elif k == "v":
        if t.a[0] not in env:
            raise EvalError("no value for " + t.a[0])
        r = env[t.a[0]]
    elif k == "sum":
        r = t.a[0]
        for x, v in t.a[1]:
            e = evalf(x, env, memo)
            r = r + (v * e if not isinstance(e, float) else float(v) * e)
    elif k == "prod":
        r = F(1)
        for b, e in t.a:
            v = evalf(b, env, memo)
            r = r * v ** e
    elif k == "floor":
        r = F(math.floor(evalf(t.a[0], env, memo)))
    elif k == "ite":
        r = evalf(t.a[1] if evalf(t.a[0], env, memo) else t.a[2], env, memo)
    elif k == "fn":
        name, args = t.a
        av = [evalf(x, env, memo) for x in args]
        if name == "rpow":
            r = float(av[0]) ** float(av[1])
            if isinstance(r, complex):
                raise EvalError("complex power")
        elif name in ("sin", "cos", "tan", "sqrt", "asin", "acos", "atan", "atan2", "exp", "log"):
            if name == "sqrt" and isinstance(av[0], F) and av[0] >= 0:
                p, q = math.isqrt(av[0].numerator), math.isqrt(av[0].denominator)
                r = F(p, q) if p * p == av[0].numerator and q * q == av[0].denominator else math.sqrt(av[0])
            else:
                r = getattr(math, name)(*av)
        else:
            # uninterpreted: a fixed smooth pseudo-random function of the arguments
            h = _h(name)
            r = 0.0
            for i, v in enumerate(av):
                h = (h * 1103515245 + 12345) % 2147483648
                r += (0.3 + h / 2147483648.0) * math.atan(float(v)) * (1 + 0.05 * (i % 7))
            r = 2.0 * math.sin(r + (h % 1000) / 500.0)
    elif k == "not":
        r = not evalf(t.a[0], env, memo)
    elif k == "and":
        r = all(evalf(x, env, memo) for x in t.a)
    elif k == "or":
        r = any(evalf(x, env, memo) for x in t.a)
    elif k in ("lt", "le", "eq"):
        v = evalf(t.a[0], env, memo)
        if v != v:
            r = False
        elif k == "eq":
            r = v == 0 if isinstance(v, F) else abs(v) <= 1e-9 * _mag(t.a[0], env, memo)
        else:
            r = v < 0 if k == "lt" else v <= 0
    else:
        raise EvalError(k)
    memo[t] = r
    return r


def _h(name):
    r = 7
    for c in name:
        r = (r * 131 + ord(c)) % 2147483648
    return r


def _mag(t, env, memo):
    if t.k == "sum":
        return 1 + abs(float(t.a[0])) + sum(abs(float(v) * float(evalf(x, env, memo))) for x, v in t.a[1])
    return 1 + abs(float(evalf(t, env, memo)))


def clear(t, env, memo=None, tol=1e-6):
    """True / False when the boolean term has that value with a margin (or exactly), None when too close to tell"""
    if memo is None:
        memo = {}
    k = t.k
    if k == "b":
        return t.a
    if k == "v":
        return bool(evalf(t, env, memo))
    if k == "not":
        r = clear(t.a[0], env, memo, tol)
        return None if r is None else not r
    if k in ("and", "or"):
        rs = [clear(x, env, memo, tol) for x in t.a]
        if k == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if k == "ite":
        c = clear(t.a[0], env, memo, tol)
        return None if c is None else clear(t.a[1] if c else t.a[2], env, memo, tol)
    if k in ("lt", "le", "eq"):
        v = evalf(t.a[0], env, memo)
        if v != v:
            return None
        if isinstance(v, F):
            return v < 0 if k == "lt" else v <= 0 if k == "le" else v == 0
        m = _mag(t.a[0], env, memo) * tol
        if m != m or m == math.inf:
            return None
        if k == "eq":
            return False if abs(v) > m else True if abs(v) <= m * 1e-4 else None
        return True if v < -m else False if v > m else None
    return bool(evalf(t, env, memo))


def free_vars(ts):
    out = {}
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            pass
    for x in seen:
        if x.k == "v":
            out[x.a[0]] = x
    return out


# ---------------------------------------------------------------- printing
def show(t, depth=0):
    if depth > 8:
        return "..."
    k = t.k
    d = depth + 1
    if k == "c":
        return str(t.a) if t.a.denominator < 10 ** 6 else repr(float(t.a))
    if k == "b":
        return str(t.a)
    if k == "inf":
        return "inf" if t.a > 0 else "-inf"
    if k == "nan":
        return "nan"
    if k == "v":
        return t.a[0]
    if k == "sum":
        parts = []
        if t.a[0]:
            parts.append(show(const(t.a[0])))
        for x, v in t.a[1]:
            parts.append(show(x, d) if v == 1 else "-" + show(x, d) if v == -1 else show(const(v)) + "*" + show(x, d))
        return "(" + " + ".join(parts) + ")"
    if k == "prod":
        return "*".join(show(b, d) + ("" if e == 1 else "^%d" % e) for b, e in t.a)
    if k == "fn":
        return t.a[0] + "(" + ", ".join(show(x, d) for x in t.a[1]) + ")"
    if k == "floor":
        return "floor(" + show(t.a[0], d) + ")"
    if k == "ite":
        return "ite(%s, %s, %s)" % tuple(show(x, d) for x in t.a)
    if k in ("lt", "le", "eq"):
        return "%s %s 0" % (show(t.a[0], d), {"lt": "<", "le": "<=", "eq": "=="}[k])
    if k == "not":
        return "not(" + show(t.a[0], d) + ")"
    return "(" + (" %s " % k).join(show(x, d) for x in t.a) + ")"
