"""Obligation discharge: ring normaliser first, then z3 (and cvc5 on request)."""
import sys
import time
from fractions import Fraction as F

sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402
from . import terms as tm  # noqa: E402

_memo = {}
_atoms_memo = {}
STATS = {"ring": 0, "syntactic": 0, "z3": 0, "cvc5": 0, "z3_time": 0.0, "ring_time": 0.0, "feas_time": 0.0, "feas": 0}
OPT = {"timeout_ms": 6000, "feas_ms": 1500, "cvc5": False}


def zname(t):
    return t.a[0]


def tr(t):
    e = _memo.get(t)
    if e is not None:
        return e
    k = t.k
    if k == "c":
        e = z3.RealVal(str(t.a))
    elif k == "b":
        e = z3.BoolVal(t.a)
    elif k == "v":
        s = t.a[1]
        e = z3.Real(t.a[0]) if s == "R" else z3.ToReal(z3.Int(t.a[0])) if s == "I" else z3.Bool(t.a[0])
    elif k == "sum":
        c, l = t.a
        parts = [z3.RealVal(str(c))] if c else []
        for x, v in l:
            parts.append(tr(x) if v == 1 else z3.RealVal(str(v)) * tr(x))
        e = z3.Sum(parts) if len(parts) > 1 else parts[0]
    elif k == "prod":
        num = None
        den = None
        for b, ex in t.a:
            x = tr(b)
            for _ in range(abs(ex)):
                if ex > 0:
                    num = x if num is None else num * x
                else:
                    den = x if den is None else den * x
        e = num if den is None else (z3.RealVal(1) if num is None else num) / den
    elif k == "fn":
        e = z3.Real("%s!%d" % (t.a[0], t.id))
    elif k == "floor":
        e = z3.ToReal(z3.Int("floor!%d" % t.id))
    elif k == "ite":
        e = z3.If(tr(t.a[0]), tr(t.a[1]), tr(t.a[2]))
    elif k == "not":
        e = z3.Not(tr(t.a[0]))
    elif k == "and":
        e = z3.And([tr(x) for x in t.a])
    elif k == "or":
        e = z3.Or([tr(x) for x in t.a])
    elif k in ("lt", "le", "eq"):
        c, l = tm._as_lin(t.a[0])
        lhs = z3.Sum([tr(x) if v == 1 else z3.RealVal(str(v)) * tr(x) for x, v in l]) if l else z3.RealVal(0)
        rhs = z3.RealVal(str(-c))
        e = lhs < rhs if k == "lt" else lhs <= rhs if k == "le" else lhs == rhs
    elif k == "inf":
        raise tm.SpecialError("inf leaf in arithmetic")
    elif k == "nan":
        raise tm.SpecialError("nan leaf in arithmetic")
    else:
        raise ValueError(k)
    _memo[t] = e
    return e


def atoms(t):
    r = _atoms_memo.get(t)
    if r is None:
        r = frozenset(x for x in tm.subterms(t) if x.k in ("fn", "floor") or (x.k == "prod" and any(e < 0 for _, e in x.a)))
        _atoms_memo[t] = r
    return r


def axioms(at, prev):
    """facts about atom `at` (prev: atoms already introduced, for congruence)"""
    out = []
    if at.k == "floor":
        x = tr(at.a[0])
        k = tr(at)
        out += [k <= x, x < k + 1]
        return out
    if at.k == "prod":
        for b, e in at.a:
            if e < 0:
                out.append(tr(b) != 0)
        return out
    name, args = at.a
    v = tr(at)
    if name in ("sin", "cos"):
        o = tm.fn("cos" if name == "sin" else "sin", *args)
        if o.k == "fn":
            w = tr(o)
            out += [v * v + w * w == 1, v <= 1, v >= -1, w <= 1, w >= -1]
    elif name == "tan":
        s, c = tm.fn("sin", *args), tm.fn("cos", *args)
        out += [v * tr(c) == tr(s)]
    elif name == "sqrt":
        a = tr(args[0])
        out += [v >= 0, z3.Implies(a >= 0, v * v == a), z3.Implies(a > 0, v > 0)]
    elif name == "rpow":
        a = tr(args[0])
        out += [z3.Implies(a > 0, v > 0)]
    elif name == "exp":
        out += [v > 0]
    elif name in ("asin",):
        out += [v <= z3.RealVal("1.5707963268"), v >= z3.RealVal("-1.5707963268")]
    n = 0
    for p in prev:
        if p.k == "fn" and p.a[0] == name and len(p.a[1]) == len(args) and p is not at:
            n += 1
            if n > 12:
                break
            conds = []
            for a, b in zip(args, p.a[1]):
                if a is b:
                    continue
                if a.srt == "B":
                    conds.append(tr(a) == tr(b))
                else:
                    conds.append(tr(a) == tr(b))
            out.append(z3.Implies(z3.And(conds) if conds else z3.BoolVal(True), v == tr(p)))
    return out


class Ctx:
    """incremental path condition"""

    def __init__(self):
        self.s = z3.Solver()
        self.s.set("timeout", OPT["feas_ms"])
        self.pc = []
        self.pcset = set()
        self.seen = set()
        self.nl = False

    def _intro(self, s, t, seen):
        todo = [t]
        new = []
        while todo:
            x = todo.pop()
            for a in atoms(x):
                if a not in seen:
                    seen.add(a)
                    new.append(a)
                    if a.k == "fn" and a.a[0] in ("sin", "cos", "tan"):
                        for nm in ("sin", "cos"):
                            o = tm.fn(nm, *a.a[1])
                            if o not in seen:
                                todo.append(o)
        for a in new:
            for ax in axioms(a, seen):
                s.add(ax)

    def assume(self, b):
        if b is tm.TRUE:
            return
        if b.k == "and":
            for x in b.a:
                self.assume(x)
            return
        self.pc.append(b)
        self.pcset.add(b)
        self._intro(self.s, b, self.seen)
        self.s.add(tr(b))

    def check(self, b):
        """'sat' / 'unsat' / 'unknown' of pc and b"""
        if b is tm.FALSE:
            return "unsat"
        if b is tm.TRUE and not self.pc:
            return "sat"
        if b in self.pcset:
            return "sat"
        if tm.not_(b) in self.pcset:
            return "unsat"
        if b.k == "and" and any(tm.not_(x) in self.pcset for x in b.a):
            return "unsat"
        t0 = time.time()
        self.s.push()
        try:
            self._intro(self.s, b, set(self.seen))
            self.s.add(tr(b))
            r = str(self.s.check())
        finally:
            self.s.pop()
            STATS["feas"] += 1
            STATS["feas_time"] += time.time() - t0
        return r

    def entails(self, b):
        return self.check(tm.not_(b)) == "unsat"


def model_values(m, names):
    vals = {}
    for n, v in names.items():
        s = v.a[1]
        if s == "R":
            e = m.eval(z3.Real(n), model_completion=True)
            vals[n] = num(e)
        elif s == "I":
            vals[n] = m.eval(z3.Int(n), model_completion=True).as_long()
        else:
            vals[n] = z3.is_true(m.eval(z3.Bool(n), model_completion=True))
    return vals


def num(e):
    if z3.is_rational_value(e):
        return F(e.numerator_as_long(), e.denominator_as_long())
    if z3.is_algebraic_value(e):
        a = e.approx(20)
        return float(F(a.numerator_as_long(), a.denominator_as_long()))
    return F(0)


class Result:
    __slots__ = ("status", "backend", "model", "reason", "time")

    def __init__(self, status, backend, model=None, reason=""):
        self.status = status       # proved | refuted | unknown
        self.backend = backend
        self.model = model
        self.reason = reason
        self.time = 0.0


def _query(pcs, goal, timeout, nl_tactic=False, opaque=False):
    """check pcs and not goal"""
    s = z3.Solver() if not nl_tactic else z3.Tactic("qfnra-nlsat").solver()
    s.set("timeout", timeout)
    c = Ctx.__new__(Ctx)
    seen = set()
    for b in pcs:
        Ctx._intro(c, s, b, seen)
        s.add(tr(b))
    ng = tm.not_(goal)
    Ctx._intro(c, s, ng, seen)
    s.add(tr(ng))
    if opaque and _opaque(s.assertions(), 500):
        return "unsat", None, s
    r = s.check()
    if r == z3.unsat:
        return "unsat", None, s
    if r == z3.sat:
        names = tm.free_vars(list(pcs) + [goal])
        return "sat", model_values(s.model(), names), s
    return "unknown", None, s


def _opaque(assertions, timeout):
    """are the assertions unsatisfiable with every product, quotient and function value replaced by an unconstrained one?"""
    fresh, memo, keep = {}, {}, []
    hit = [False]

    def new(key, sort):
        if key not in fresh:
            fresh[key] = z3.FreshConst(sort, "o")
        hit[0] = True
        return fresh[key]

    def go(e):
        i = e.get_id()
        if i in memo:
            return memo[i]
        keep.append(e)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_MUL:
            nums = [c for c in ch if z3.is_rational_value(c) or z3.is_int_value(c)]
            rest = [c for c in ch if not (z3.is_rational_value(c) or z3.is_int_value(c))]
            if len(rest) > 1:
                r = new(("*",) + tuple(sorted(c.get_id() for c in rest)), e.sort())
                keep.extend(rest)
            elif rest:
                r = go(rest[0])
            else:
                r = None
            for c in nums:
                r = c if r is None else c * r
        elif k == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]) or k in (z3.Z3_OP_POWER,) or k == z3.Z3_OP_UNINTERPRETED and ch:
            r = new(i, e.sort())
        elif not ch:
            r = e
        else:
            cs = [go(c) for c in ch]
            r = e if all(a.eq(b) for a, b in zip(cs, ch)) else e.decl()(*cs)
        memo[i] = r
        return r
    out = [go(a) for a in assertions]
    if not hit[0]:
        return False
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*out)
    return s.check() == z3.unsat


def cvc5_query(smt2, timeout_ms):
    import subprocess
    try:
        p = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % timeout_ms, "-"], input="(set-logic ALL)\n" + smt2,
                           capture_output=True, text=True, timeout=timeout_ms / 1000 + 10)
        o = p.stdout.strip().splitlines()
        return o[0] if o else "unknown"
    except Exception:  # noqa
        return "unknown"


def _relevant(pc, goal):
    """cone of influence: keep path facts sharing variables (transitively) with the goal"""
    gv = set(tm.free_vars([goal]))
    facts = [(b, set(tm.free_vars([b]))) for b in pc]
    keep = []
    changed = True
    rest = facts
    while changed:
        changed = False
        nr = []
        for b, vs in rest:
            if vs & gv or not vs:
                keep.append(b)
                if not vs <= gv:
                    gv |= vs
                    changed = True
            else:
                nr.append((b, vs))
        rest = nr
    return keep


def prove(ctx, goal, timeout=None, depth=0):
    t0 = time.time()
    r = _prove(ctx, goal, timeout or OPT["timeout_ms"])
    r.time = time.time() - t0
    if r.status == "proved":
        STATS[r.backend] = STATS.get(r.backend, 0) + 1
    return r


def _prove(ctx, goal, timeout):
    if goal is tm.TRUE or goal in ctx.pcset:
        return Result("proved", "syntactic")
    if goal.k == "and":
        worst = None
        backend = "syntactic"
        rank = {"syntactic": 0, "ring": 1, "z3": 2, "cvc5": 3}
        for g in goal.a:
            r = _prove(ctx, g, timeout)
            if r.status == "refuted":
                return r
            if r.status == "unknown":
                worst = worst or r
            elif rank[r.backend] > rank[backend]:
                backend = r.backend
        return worst or Result("proved", backend)
    if goal.k == "eq":
        t0 = time.time()
        try:
            st = _ring_eq(ctx, goal.a[0], [], 0, [0])
        except (tm.PolyBig, ZeroDivisionError, tm.SpecialError) as e:
            st = None
        STATS["ring_time"] += time.time() - t0
        if st is True:
            return Result("proved", "ring")
    t0 = time.time()
    try:
        pcs = _relevant(ctx.pc, goal)
        st, model, s = _query(pcs, goal, timeout, opaque=goal.k != "eq")
        if st == "unknown":
            g2 = _expand(goal)
            if g2 is not goal:
                st2, model2, s2 = _query(pcs, g2, timeout)
                if st2 != "unknown":
                    st, model = st2, model2
        if st == "unknown" and len(pcs) < len(ctx.pc):
            st2, model2, s2 = _query(ctx.pc, goal, timeout)
            if st2 != "unknown":
                st, model, s = st2, model2, s2
        if st == "sat" and len(pcs) < len(ctx.pc):
            # values for the untouched variables must satisfy the rest of the path condition too
            st2, model2, s2 = _query(ctx.pc, goal, timeout)
            if st2 == "sat":
                model = model2
            elif st2 == "unsat":
                st = "unsat"
        if st == "unknown" and goal.k == "eq" and not tm.find_conds(goal.a[0]):
            try:
                if _boundary(ctx, goal.a[0], []):
                    return Result("proved", "ring")
            except (tm.PolyBig, ZeroDivisionError, tm.SpecialError):
                pass
        if st == "unknown" and OPT["cvc5"]:
            r = cvc5_query(s.to_smt2(), timeout)
            if r == "unsat":
                return Result("proved", "cvc5")
    except (tm.SpecialError, z3.Z3Exception) as e:
        return Result("unknown", "z3", reason="%s: %s" % (type(e).__name__, e))
    finally:
        STATS["z3_time"] += time.time() - t0
    if st == "unsat":
        if OPT["cvc5"] and OPT.get("cross", 0) > 0:
            OPT["cross"] -= 1
            r = cvc5_query(s.to_smt2(), timeout)
            if r == "unsat":
                STATS["cvc5_confirmed"] = STATS.get("cvc5_confirmed", 0) + 1
            elif r == "sat":
                return Result("unknown", "z3", reason="cvc5 disagrees with z3")
        return Result("proved", "z3")
    if st == "sat":
        return Result("refuted", "z3", model=model)
    return Result("unknown", "z3", reason="solver returned unknown within %d ms" % timeout)


def _expand(goal):
    """polynomial expanded form of a comparison goal (helps nonlinear arithmetic)"""
    if goal.k not in ("eq", "lt", "le"):
        return goal
    try:
        p = tm.nf(goal.a[0])
        if goal.k == "eq":
            p = tm.clear_denoms(p)
        elif any(isinstance(tm._atominfo[b], tuple) or e < 0 for m in p for b, e in m):
            return goal
        if len(p) > 400:
            return goal
        d = {}
        c = F(0)
        for m, v in p.items():
            if not m:
                c = v
                continue
            pr = {}
            for b, e in m:
                pr[tm._atominfo[b]] = e
            d[tm._mk_prod(pr)] = v
        return tm._cmp(goal.k, tm._mk_lin(c, d))
    except (tm.PolyBig, ZeroDivisionError, tm.SpecialError):
        return goal


def _ring_eq(ctx, d, extra, depth, budget):
    """True if d == 0 is proved by normalisation after splitting on ite conditions, False/None otherwise"""
    budget[0] += 1
    if budget[0] > 400:
        return None
    if d.k == "c":
        return d.a == 0
    conds = tm.find_conds(d)
    # innermost decided conditions first: choose a condition without nested ites when possible
    cs = [c for c in conds if not tm.find_conds(c)] or conds
    if not cs:
        return True if tm.is_zero(d) else bool(extra) and _boundary(ctx, d, extra)
    c = cs[0]
    v = None
    if c in ctx.pcset or c in extra:
        v = True
    elif tm.not_(c) in ctx.pcset or tm.not_(c) in extra:
        v = False
    else:
        e = tm.and_(*extra) if extra else tm.TRUE
        if ctx.check(tm.and_(e, tm.not_(c))) == "unsat":
            v = True
        elif ctx.check(tm.and_(e, c)) == "unsat":
            v = False
    if v is not None:
        return _ring_eq(ctx, tm.subst(d, _cmap(c, v)), extra, depth, budget)
    if depth > 12:
        return None
    r = _ring_eq(ctx, tm.subst(d, _cmap(c, True)), extra + [c], depth + 1, budget)
    if r is not True:
        return r
    return _ring_eq(ctx, tm.subst(d, _cmap(c, False)), extra + [tm.not_(c)], depth + 1, budget)


def _boundary(ctx, d, extra):
    """the case conditions may pin inequalities to equality (closed boundaries): substitute the variables they determine"""
    cand = [b for b in list(extra) + list(ctx.pc) if b.k in ("le", "lt", "eq")]
    e = tm.and_(*extra) if extra else tm.TRUE
    done = 0
    for b in cand:
        fv = set(tm.free_vars([d]))
        p = b.a[0]
        lin = dict(tm._as_lin(p)[1])
        vs = [v for v in lin if v.k == "v" and v.srt == "R" and v.a[0] in fv]
        if not vs or any(not set(tm.free_vars([v])) <= fv for v in lin):
            continue
        done += 1
        if done > 24:
            return False
        if b.k != "eq" and ctx.check(tm.and_(e, tm.not_(tm.eq(p, tm.ZERO)))) != "unsat":
            continue
        v = vs[0]
        rest = tm.sub(p, tm.scale(lin[v], v))
        if v.a[0] in tm.free_vars([rest]):
            continue
        d = tm.subst(d, {v: tm.scale(-1 / lin[v], rest)})
        if tm.is_zero(d):
            return True
    return False


def _cmap(c, v):
    n = tm.not_(c)
    m = {c: tm.TRUE if v else tm.FALSE, n: tm.FALSE if v else tm.TRUE}
    if v and c.k == "and":
        for x in c.a:
            m[x] = tm.TRUE
            m[tm.not_(x)] = tm.FALSE
    if not v and c.k == "or":
        for x in c.a:
            m[x] = tm.FALSE
            m[tm.not_(x)] = tm.TRUE
    return m
