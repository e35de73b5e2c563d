"""C05 angle wrapping keeps angles equivalent and in range

Postcondition of BaseDynamics.step for an arbitrary transition result, pattern of wrap centers, limits and dimension; and of entity.step
(same step with and without wrapping)."""
import contextlib

from contracts import common as cm
from vf.engine import GEN
from vf.registry import contract

ASSUME = ["the wrap interval is closed above in the concrete runs (float rounding of x mod 2 pi)"]


def check(vc, s, un, c, wrapped):
    """s: new state component, un: unwrapped component, c: center"""
    if wrapped:
        vc.prove("wrapped angle within [center - pi, center + pi]", vc.and_(vc.le(c - vc.pi, s, tol=2e-5), vc.le(s, c + vc.pi, tol=2e-5)))
        vc.prove("differs by an integer multiple of 2 pi", vc.is_int((s - un) / (2 * vc.pi)))
    else:
        vc.prove("component without wrap center unaltered", vc.eq(s, un, tol=1e-6))


def before(vc, d, n):
    """an earlier step of the dynamics, or of other ones with other wrap centers"""
    def go(d):
        d.step(vc.real("h'"), vc.vec("s'", n), vc.vec("u'", 1))

    def other():
        c = vc.vec("c'", n, mag=5)
        go(cm.stepped_dynamics(vc, (vc.vec("next'", n, mag=12), vc.vec("dot'", n)),
                               angle_wrap_centers=c if vc.choice("wrapped before", (True, False)) else c * vc.nan))
    cm.earlier(vc, lambda: go(d), other)


@contract("any_transition", [(n, w) for n in (1, 2, 3) for w in ("free", "limited")], time=60, samples=100)
def any_transition(vc, n, lim):
    keep = [vc.choice("wrapped%d" % i, (True, False)) for i in range(n)]
    c = vc.vec("c", n, mag=5)
    cen = vc.np.array([x if k else vc.nan for x, k in zip(vc.els(c), keep)], dtype=vc.np.float64)
    lo, hi = vc.limits("lim", n, mag=10) if lim == "limited" else (-vc.inf, vc.inf)
    nxt = vc.vec("next", n, mag=12)
    d = cm.stepped_dynamics(vc, (vc.copy(nxt), vc.vec("dot", n)), state_min=lo, state_max=hi, angle_wrap_centers=cen)
    before(vc, d, n)
    s, _ = d.step(vc.real("h"), vc.vec("s", n), vc.vec("u", 1))
    lo, hi = cm.bro(vc, lo, n), cm.bro(vc, hi, n)
    vc.prove("dimension unchanged", len(vc.els(s)) == n)
    for i in range(n):
        un = vc.clip(vc.els(nxt)[i], lo[i], hi[i])
        check(vc, vc.els(s)[i], un, vc.els(c)[i], keep[i])


@contract("any_dimension", ["all", "none", "off"], time=60, samples=100)
def any_dimension(vc, pattern):
    c = vc.vec("c", GEN, mag=5)
    nxt = vc.vec("next", GEN, mag=12)
    cen = c if pattern == "all" else None if pattern == "off" else c * vc.nan
    d = cm.stepped_dynamics(vc, (vc.copy(nxt), vc.vec("dot", GEN)), angle_wrap_centers=cen)
    before(vc, d, GEN)
    s, _ = d.step(vc.real("h"), vc.vec("s", GEN), vc.vec("u", 1))
    for a, b, x in zip(vc.els(s), vc.els(nxt), vc.els(c)):
        check(vc, a, b, x, pattern == "all")


@contract("mixed_dimension", None, time=60, samples=100)
def mixed_dimension(vc):
    c = vc.vec("c", GEN, mag=5)
    nxt = vc.vec("next", GEN, mag=12)
    cen, pat = vc.some_nan("unwrapped", c)
    d = cm.stepped_dynamics(vc, (vc.copy(nxt), vc.vec("dot", GEN)), angle_wrap_centers=cen)
    before(vc, d, GEN)
    s, _ = d.step(vc.real("h"), vc.vec("s", GEN), vc.vec("u", 1))
    a, b, x = vc.els(s), vc.els(nxt), vc.els(c)
    for i in range(len(a)):
        p = pat if vc.symbolic else pat[i]
        vc.prove("component without wrap center unaltered", vc.implies(p, vc.eq(a[i], b[i], tol=1e-6)))
        vc.prove("wrapped angle within [center - pi, center + pi]", vc.or_(p, vc.and_(vc.le(x[i] - vc.pi, a[i], tol=2e-5), vc.le(a[i], x[i] + vc.pi, tol=2e-5))))
        vc.prove("differs by an integer multiple of 2 pi", vc.or_(p, vc.is_int((a[i] - b[i]) / (2 * vc.pi))))


@contract("own_centers", cm.models, time=90, samples=30)
def own_centers(vc, mod, name, mode, n, k):
    """each model of the package with wrap centers of the user's"""
    keep = [vc.choice("wrapped%d" % i, (True, False)) if i < 2 else i == n - 1 for i in range(n)]
    c = vc.vec("c", n, mag=5)
    m, h, s, u = vc.choice("method", ("RK45", "Euler")), cm.duration(vc), vc.vec("s", n), vc.vec("u", k)
    cen = [c[i] if keep[i] else vc.nan for i in range(n)]
    free = dict(state_min=-vc.inf, state_max=vc.inf, integration_method=m)
    d = cm.model(vc, mod, name, mode, angle_wrap_centers=vc.arr(cen), **free)
    f = cm.model(vc, mod, name, mode, angle_wrap_centers=vc.nan * c, **free)
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    a, _ = d.step(h, vc.copy(s), vc.copy(u))
    b, _ = f.step(h, vc.copy(s), vc.copy(u))
    for i, (x, y, w) in enumerate(zip(vc.els(a), vc.els(b), keep)):
        if vc.symbolic:
            check(vc, x, y, c[i], w)
        elif not w:
            vc.prove("component without wrap center unaltered", vc.eq(x, y, tol=1e-6))
        else:
            vc.prove("wrapped angle within [center - pi, center + pi]", vc.and_(vc.le(c[i] - vc.pi, x, tol=2e-5), vc.le(x, c[i] + vc.pi, tol=2e-5)))


ANGLES = {"heading": True, "theta": True, "roll": False, "gamma": False}


@contract("entity", lambda: [(m, n, k) for (m, n) in cm.vehicles() for k in ("RK45", "Euler")], time=90, samples=30)
def entity(vc, mod, name, method):
    kw = cm.init_values(vc, mod, name)
    act = None
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    h = cm.duration(vc)
    out = []
    for wrap in (True, False):
        with contextlib.nullcontext() if wrap else cm.configured(vc, angle_wrap_centers=None):
            e = cm.cls_of(vc, mod, name)(name="e", integration_method=method, **kw)
        if act is None:
            act, _ = cm.action_of(vc, e, "list", len(e.control_default))
        cen = e.dynamics.angle_wrap_centers if wrap else cen
        e.step(h, act)
        out.append(e)
    a, b = out
    n = len(vc.els(a.state))
    if cen is not None:
        cs = vc.els(cen)
        vc.prove("one wrap center per state component", len(cs) == n)
    for i in range(n):
        x, y = vc.els(a.state)[i], vc.els(b.state)[i]
        w = cen is not None and not _nan(cs[i])
        check(vc, x, y, cs[i] if w else None, w)
    for q in ("heading", "theta"):
        if cm.has(mod, name, q):
            v = getattr(a, q)
            vc.prove("%s wrapped to [-pi, pi]" % q, vc.and_(vc.le(-vc.pi, v, tol=1e-5), vc.le(v, vc.pi, tol=1e-5)))


def _nan(x):
    try:
        return bool(x != x) if not hasattr(x, "t") else x.t.k == "nan"
    except TypeError:
        return True
