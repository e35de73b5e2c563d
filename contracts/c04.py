"""C04 state limits hold after every step

Postcondition of BaseDynamics.step for an arbitrary transition result, state dimension and limits; and of entity.step for every entity
class with symbolic configured limits."""
from contracts import common as cm
from vf.engine import GEN
from vf.registry import contract

ASSUME = ["min <= max element by element; wrapped components: limits infinite or inside [center - pi, center + pi)"]


def wrap_ok(vc, lo, hi, c):
    """limits of a wrapped component are infinite or inside the wrap interval"""
    return vc.or_(vc.and_(vc.isinf(lo), vc.isinf(hi)), vc.and_(vc.le(c - vc.pi, lo, tol=0), vc.lt(hi, c + vc.pi)))


def wraps(vc, n, wrap, lo, hi):
    """an arbitrary pattern of wrap centers compatible with the limits"""
    if wrap == "none":
        return None
    if n is GEN:
        c = vc.vec("c", GEN, mag=4)
        if wrap == "mixed":
            c, pat = vc.some_nan("unwrapped", c)
            el, lo_, hi_ = vc.els(c), vc.els(lo), vc.els(hi)
            if vc.symbolic:
                vc.assume(vc.or_(pat, wrap_ok(vc, lo_[0], hi_[0], vc.els(vc.nonan)[0])))
                return c
    else:
        c = vc.vec("c", n, mag=4)
        if wrap == "mixed":
            keep = [vc.choice("wrapped%d" % i, (True, False)) for i in range(n)]
            c = vc.np.array([x if k else vc.nan for x, k in zip(vc.els(c), keep)], dtype=vc.np.float64)
            el, lo_, hi_ = vc.els(c), cm.bro(vc, lo, n), cm.bro(vc, hi, n)
            for i in range(n):
                if keep[i]:
                    vc.assume(wrap_ok(vc, lo_[i], hi_[i], el[i]))
            return c
    el = vc.els(c)
    lo_, hi_ = cm.bro(vc, lo, len(el)), cm.bro(vc, hi, len(el))
    for i in range(len(el)):
        if not vc.symbolic and el[i] != el[i]:
            continue
        vc.assume(wrap_ok(vc, lo_[i], hi_[i], el[i]))
    return c


def before(vc, d, make, n, shape, jx=False):
    """an earlier step of the dynamics, or of other ones with other limits"""
    def go(d):
        d.step(vc.real("h'", lo=vc.q(1, 100), hi=2), cm.jvec(vc, vc.vec("s'", n), jx), cm.jvec(vc, vc.vec("u'", 1), jx))

    def other():
        lo, hi = vc.limits("lim'", n, mag=4) if shape == "array" else vc.scalar_limits("lim'", mag=4)
        go(make(lo, hi))
    cm.earlier(vc, lambda: go(d), other)


@contract("any_transition", [(n, s, w) for n in ("generic", 1, 2, 3) for s in ("array", "scalar") for w in ("none", "all", "mixed")], time=60)
def any_transition(vc, n, shape, wrap):
    n = GEN if n == "generic" else n
    lo, hi = vc.limits("lim", n, mag=4) if shape == "array" else vc.scalar_limits("lim", mag=4)
    c = wraps(vc, n, wrap, lo, hi)
    make = lambda lo, hi: cm.stepped_dynamics(vc, (vc.vec("next", n), vc.vec("dot", n)), state_min=lo, state_max=hi, angle_wrap_centers=c)
    d = make(lo, hi)
    before(vc, d, make, n, shape)
    s, _ = d.step(vc.real("h"), vc.vec("s", n), vc.vec("u", 1))
    vc.prove("new state within limits", vc.and_(vc.le(lo, s), vc.le(s, hi)))


@contract("methods", [(m, n, s) for m in cm.METHODS for n in ("generic", 2) for s in ("array", "scalar")], time=60, samples=30)
def methods(vc, method, n, shape):
    """every integration method, arbitrary model derivative"""
    if not vc.symbolic and method == "RK45_JAX" and vc.rng.random() < 0.9:
        vc.assume(False)
    n = GEN if n == "generic" else n
    lo, hi = vc.limits("lim", n, mag=4) if shape == "array" else vc.scalar_limits("lim", mag=4)
    jx = method == "RK45_JAX"
    k = [0]
    fixed = vc.vec("d", n, mag=3)

    def raw(self, t, state, control):
        k[0] += 1
        return vc.vec("d", n, mag=3) if vc.symbolic else cm.jvec(vc, fixed, jx)
    make = lambda lo, hi: cm.raw_dynamics(vc, "BaseODESolverDynamics", n, raw, state_min=lo, state_max=hi, integration_method=method, use_jax=jx)
    d = make(lo, hi)
    before(vc, d, make, n, shape, jx)
    s, _ = d.step(cm.duration(vc), cm.jvec(vc, vc.vec("s", n), jx), cm.jvec(vc, vc.vec("u", 1), jx))
    vc.prove("new state within limits", vc.and_(vc.le(lo, s), vc.le(s, hi)))


@contract("own_limits", lambda: [m + (s,) for m in cm.models() for s in ("array", "scalar")], time=90, samples=30)
def own_limits(vc, mod, name, mode, n, k, shape):
    """each model of the package under limits of the user's"""
    lo, hi = vc.limits("lim", n, mag=4) if shape == "array" else vc.scalar_limits("lim", mag=4)
    d = cm.model(vc, mod, name, mode, state_min=lo, state_max=hi, angle_wrap_centers=vc.vec("s", n) * vc.nan, integration_method=vc.choice("method", ("RK45", "Euler")))
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    s, _ = d.step(cm.duration(vc), vc.vec("s", n), vc.vec("u", k))
    vc.prove("dimension unchanged", len(vc.els(s)) == n)
    vc.assume(vc.symbolic or all(abs(float(x)) < 1e30 for x in vc.els(s)))
    for x, a, b in zip(vc.els(s), cm.bro(vc, lo, n), cm.bro(vc, hi, n)):
        vc.prove("new state within limits", vc.and_(vc.le(a, x, tol=1e-6), vc.le(x, b, tol=1e-6)))


LIMITS = {
    ("dubins", "Dubins2dAircraft"): {"v": ("v_min", "v_max")},
    ("dubins", "Dubins3dAircraft"): {"v": ("v_min", "v_max"), "gamma": ("gamma_min", "gamma_max"), "roll": ("roll_min", "roll_max")},
    ("cwh.rotational_model", "CWHRotation2dSpacecraft"): {"wz": "ang_vel_limit"},
    ("cwh.sixdof_model", "SixDOFSpacecraft"): {"wx": "ang_vel_limit", "wy": "ang_vel_limit", "wz": "ang_vel_limit"},
}


def configured(vc, mod, name):
    kw, rng = {}, {}
    for q, lim in LIMITS[(mod, name)].items():
        if isinstance(lim, tuple):
            if q == "v":
                a = vc.real("v_min", lo=1, hi=300)
                b = vc.real("v_max", lo=1, hi=600)
            else:
                a = vc.real(q + "_min", lo=vc.q(-3, 2), hi=0)
                b = vc.real(q + "_max", lo=0, hi=vc.q(3, 2))
            vc.assume(a <= b)
            kw[lim[0]], kw[lim[1]] = a, b
            rng[q] = (a, b)
        else:
            w = kw[lim] if lim in kw else vc.real(lim, lo=0, hi=1)
            kw[lim] = w
            rng[q] = (-w, w)
    return kw, rng


@contract("entity", [(m, n, k, how) for (m, n) in LIMITS for k in ("RK45", "Euler") for how in ("configured", "default")], time=90, samples=40)
def entity(vc, mod, name, method, how):
    kw, rng = configured(vc, mod, name)
    if how == "default":
        e = cm.make(vc, mod, name, integration_method=method)
        lo, hi = vc.els(e.dynamics.state_min), vc.els(e.dynamics.state_max)
    else:
        kw.update(cm.cfg(vc, mod, name))
        e = cm.make(vc, mod, name, integration_method=method, **kw)
    act, _ = cm.action_of(vc, e, "array", len(e.control_default))
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    e.step(cm.duration(vc), act)
    if how == "default":
        vc.prove("state limits are vectors", len(lo) == len(vc.els(e.state)) == len(hi))
        vc.prove("state within the dynamics' limits", vc.and_(vc.le(lo, e.state), vc.le(e.state, hi)))
        lims = {"v": (200, 400), "gamma": (vc.num("-0.349067"), vc.num("0.349067")), "roll": (vc.num("-1.047199"), vc.num("1.047199"))}
        w = vc.num("0.034907")
        rng = {q: lims.get(q, (-w, w)) for q in rng}
    for q, (a, b) in rng.items():
        v = getattr(e, q)
        vc.prove("%s within its configured range" % q, vc.and_(vc.le(a, v, tol=1e-6), vc.le(v, b, tol=1e-6)))
