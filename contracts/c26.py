"""C26 F-16 trim cost is zero exactly at trim and enforces its constraints

conf16 and clf16 for every candidate, state and flight-condition parameter; clf16 is verified against the contract of subf16_model (C24: a function of
its arguments, which must be the constrained state and the candidate's control) and of tgear (C22)."""
from contracts.f16 import LL, fn
from vf.registry import contract

ASSUME = ["subf16_model and tgear are functions of their arguments here (own contracts: C24, C22)", "the climb parameter singam lies in [-1, 1]", "flight condition (orient) 1, 2, 3 or 4"]
TOL = 1e-9
NAMES = ("radgam", "singam", "rr", "pr", "tr", "phi", "cphi", "sphi", "thetadot", "coord", "stab")


def callees(vc):
    def gear(orig):
        return lambda thtl: vc.uf("tgear", thtl)

    def plant(orig):
        import inspect
        sig = inspect.signature(orig)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            x, u, model, adj = b.args
            g = lambda n: vc.uf("%s/%s" % (n, model), x, u)
            return vc.arr([g("xd%d" % i) for i in range(13)]), g("nz"), vc.uf("ny/%s/%s" % (model, bool(adj)), x, u), g("az"), vc.uf("ay/%s/%s" % (model, bool(adj)), x, u)
        return f
    vc.stub(LL + "tgear", "tgear", gear)
    vc.stub(LL + "subf16_model", "subf16_model", plant)


def parameters(vc, orient):
    k = {n: vc.real(n, mag=0.3) if n != "singam" else vc.real(n, lo=-1, hi=1) for n in NAMES}
    return k, tuple(k[n] for n in NAMES) + (orient,)


def throttle(vc, name):
    """any throttle: a candidate of the optimiser may leave [0, 1]"""
    return vc.real(name) if vc.symbolic else vc.real(name, lo=-0.5, hi=1.5)


def candidate(vc):
    x = [vc.real("vt", pos=True) if vc.symbolic else vc.real("vt", lo=200, hi=900)]
    x += [vc.real("x%d" % i, mag=0.3) if vc.symbolic else vc.real("x%d" % i, lo=-0.5, hi=0.5) for i in range(1, 11)]
    x += [vc.real("alt", lo=0, hi=40000), vc.real("pow", lo=0, hi=100)]
    return x, [vc.real("u%d" % i, mag=10) if i else throttle(vc, "u0") for i in range(4)]


def constrained(vc, orient, k, x, u):
    y = list(x)
    if orient in (1, 2, 4):
        y[3] = k["phi"]
        y[4] = x[1] + k["radgam"] if orient == 2 else x[1]
        y[6], y[7], y[8] = k["rr"], k["thetadot"] if orient == 4 else k["pr"], 0
    if orient == 3:
        th, ph = x[4], x[3]
        y[6], y[7], y[8] = -k["tr"] * vc.sin(th), k["tr"] * vc.cos(th) * vc.sin(ph), k["tr"] * vc.cos(th) * vc.cos(ph)
    y[12] = fn(vc, "tgear")(u[0])
    return y


@contract("constraints", [(o,) for o in (1, 2, 3, 4)], time=60, samples=120)
def constraints(vc, orient):
    callees(vc)
    k, const = parameters(vc, orient)
    x, u = candidate(vc)
    xa, ua = vc.arr(x), vc.arr(u)
    rx, ru = vc.mod(LL + "conf16").conf16(xa, ua, const)
    want = constrained(vc, orient, k, x, u)
    vc.prove("attitude, body rates and engine power satisfy the flight condition, the rest is unchanged", vc.eq(list(vc.els(rx)), want, tol=TOL))
    vc.prove("the constraints are imposed on the state itself", vc.eq(list(vc.els(xa)), want, tol=TOL))
    vc.prove("the control is unchanged", vc.and_(vc.same(vc.els(ru), u), vc.same(vc.els(ua), u)))


WEIGHTS = {1: {0: 100, 1: 100, 2: 100, 6: 100, 7: 100, 8: 100}, 2: {0: 1, 1: 100, 2: 100, 6: 10, 7: 10, 8: 10, "climb": 500},
           3: {0: 1, 1: 100, 2: 100, 11: 100, 6: 10, 7: 10, 8: 10, "turn": 500}, 4: {0: 1, 1: 100, 2: 100, 6: 10, 7: 10, 8: 10, "pull-up": 500}}


@contract("cost", [(o, n, m) for o in (1, 2, 3, 4) for n in (3, 7) for m in (None, "stevens", "morelli")], time=60, samples=40)
def cost(vc, orient, n, model):
    callees(vc)
    k, const = parameters(vc, orient)
    x, u = candidate(vc)
    s = [vc.real("s%d" % i, mag=0.3) if i else throttle(vc, "s0") for i in range(n)]
    xa, ua, sa = vc.arr(x), vc.arr(u), vc.arr(s)
    f = vc.mod(LL + "clf16").clf16
    adjust = vc.choice("side acceleration option", (True, False)) if model else True
    args = (model, adjust) if model else ()
    if vc.choice("called before", (False, True)):
        f(vc.arr(s), vc.arr(x), vc.arr(u), const, *args)
    r = f(sa, xa, ua, const, *args)
    # the candidate
    v = list(s[:2]) + u[2:] if n == 3 else list(s[:4])
    y = list(x)
    if n == 3:
        y[1] = s[2]
    else:
        y[1], y[3], y[4] = s[4:]
    y = constrained(vc, orient, k, y, v)
    vc.prove("the candidate and the flight-condition constraints are imposed on state and control",
             vc.and_(vc.eq(list(vc.els(xa)), y, tol=TOL), vc.eq(list(vc.els(ua)), v, tol=TOL)))
    vc.prove("engine power matches the throttle gearing", vc.eq(vc.els(xa)[12], fn(vc, "tgear")(vc.els(ua)[0]), tol=TOL))
    vc.prove("the candidate vector is not modified", vc.same(vc.els(sa), s))
    xd = vc.els(vc.mod(LL + "subf16_model").subf16_model(vc.arr(y), vc.arr(v), model or "stevens", adjust)[0])
    err = {"climb": lambda: xd[11] - x[0] * k["singam"], "turn": lambda: xd[5] - k["tr"], "pull-up": lambda: xd[4] - k["thetadot"]}
    terms = [(w, err[i]() if isinstance(i, str) else xd[i]) for i, w in WEIGHTS[orient].items()]
    q = sum((w * e * e for w, e in terms[1:]), terms[0][0] * terms[0][1] * terms[0][1])
    vc.prove("cost is non-negative", vc.le(0, r))
    vc.prove("cost is the weighted sum of squares, its root below one", vc.eq(r, vc.ite(q < 1, vc.sqrt(q), q), tol=1e-7))
    zero = vc.and_(*[e == 0 for _, e in terms])
    if vc.symbolic:
        vc.prove("zero when all penalised derivatives vanish", vc.implies(zero, r == 0))
        vc.prove("zero only when all penalised derivatives vanish", vc.implies(r == 0, zero))


class Given:
    """subf16_model replaced by its contract in the real modules: some derivative, the same for equal arguments"""

    def __init__(self, vc, xd):
        import sys
        from vf.engine import PKG
        vc.mod(LL + "clf16")
        self.fn, self.xd, self.calls = vc.mod(LL + "subf16_model").subf16_model, xd, 0
        self.where = [(m, k) for n, m in list(sys.modules.items()) if n.startswith(PKG) and m is not None for k, v in list(vars(m).items()) if v is self.fn]

    def __enter__(self):
        def f(x, u, model, adjust_cy=True):
            import numpy as np
            self.calls += 1
            return np.array(self.xd), 0.0, 0.0, 0.0, 0.0
        for m, k in self.where:
            setattr(m, k, f)
        return self

    def __exit__(self, *a):
        for m, k in self.where:
            setattr(m, k, self.fn)


@contract("off_trim", [(1,), (2,), (3,), (4,)], bounded="400 random derivatives per flight condition (the proof's obligation 'zero only when all penalised derivatives vanish', on floats)", samples=400)
def off_trim(vc, orient):
    """the proof's obligation about cost zero, for derivatives that the real aircraft model need not attain"""
    k, const = parameters(vc, orient)
    x, u = candidate(vc)
    s = [vc.real("s%d" % i, mag=0.3) if i else throttle(vc, "s0") for i in range(3)]
    target = {2: {11: x[0] * k["singam"]}, 3: {5: k["tr"]}, 4: {4: k["thetadot"]}}.get(orient, {})
    xd = [0.0] * 13
    for i in range(13):
        if i in target:
            xd[i] = target[i]
        elif i not in WEIGHTS[orient]:
            xd[i] = vc.real("xd%d" % i, mag=3)       # not penalised
    off = vc.choice("off trim", ("nothing", "a little", "much") + (("mirrored", "doubled") if target else ()))
    names = sorted({i for i in WEIGHTS[orient] if not isinstance(i, str)} | set(target))
    i = vc.choice("which", names)
    if off in ("mirrored", "doubled"):
        i = sorted(target)[0]
        vc.assume(abs(xd[i]) > 1e-3)
        xd[i] *= -1 if off == "mirrored" else 2
    elif off != "nothing":
        xd[i] += vc.real("by", lo=1e-7, hi=1e-3, log=True) * vc.choice("sign", (1, -1)) if off == "a little" else vc.real("by", lo=1e-3, hi=30, log=True)
    with Given(vc, xd) as g:
        r = vc.mod(LL + "clf16").clf16(vc.arr(s), vc.arr(x), vc.arr(u), const)
    vc.assume(g.calls)
    if off == "nothing":
        vc.prove("cost is zero when all penalised derivatives vanish", abs(r) < 1e-6)
    else:
        vc.prove("cost is positive off trim", r > 0)
