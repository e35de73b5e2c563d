"""C01 commands reaching the dynamics never exceed the actuator limits

Contract of BaseEntity.step towards the dynamics it calls: control = clip(command(action), control_min, control_max), a
warning iff some component was outside."""
from contracts import common as cm
from vf.engine import GEN
from vf.registry import contract

ASSUME = ["control_min <= control_max element by element (precondition)", "a command that is NaN is outside the contract"]


def obligations(vc, e, u, lo, hi, rec, nwarn, tol=1e-6):
    vc.prove("the dynamics is called exactly once", len(rec.calls) == 1)
    c = vc.els(rec.calls[0][2])
    vc.prove("one command component per actuator", len(c) == len(u))
    for i in range(len(u)):
        vc.prove("command within limits", vc.and_(vc.le(lo[i], c[i], tol=tol), vc.le(c[i], hi[i], tol=tol)))
        vc.prove("inside components unchanged, others at the exceeded limit", vc.eq(c[i], vc.clip(u[i], lo[i], hi[i]), tol=tol))
    out = vc.any([vc.or_(u[i] < lo[i], u[i] > hi[i]) for i in range(len(u))]) if u else False
    vc.prove("warning exactly when out of range", vc.iff(nwarn > 0, out))


KINDS = ("none", "dict", "list", "array", "ints", "jax")


@contract("entity", lambda: [(m, n, k) for m, n in cm.entities() for k in KINDS], time=60, samples=40)
def entity(vc, mod, name, kind):
    e = cm.make(vc, mod, name)
    n = len(e.control_default)
    if kind == "dict" and e.control_map is None:
        return vc.prove("no published actuators", n == 0)
    d = vc.choice("default", ("own", "arbitrary"))
    if d == "arbitrary":
        e.control_default = vc.vec("default", n, mag=2)
    lo, hi = cm.bro(vc, e.control_min, n), cm.bro(vc, e.control_max, n)
    for a, b in zip(lo, hi):
        vc.assume(a <= b)
    act, u = cm.action_of(vc, e, kind, n)
    rec = e.dynamics = cm.Rec(vc, len(e.state))
    _, w = vc.count_warnings(lambda: e.step(vc.real("h", pos=True), act))
    obligations(vc, e, u, lo, hi, rec, w, cm.exact(kind))


def before(vc, e, rec, n, shape):
    """an earlier step of the entity, or of another one with other limits"""
    def same():
        if n is not GEN and vc.choice("earlier action", ("array", "dict")) == "dict":
            e.step(vc.real("h'"), {k: vc.real("u'_" + k, mag=2) for k in e.control_map})
        else:
            e.step(vc.real("h'"), vc.vec("u'", n, mag=2))
        del rec.calls[:]

    def other():
        lo, hi = vc.limits("lim'", n) if shape == "array" else vc.scalar_limits("lim'")
        o = cm.test_entity(vc, n, 2, init=vc.vec("s'", 2), dynamics=cm.Rec(vc, 2), control_default=vc.vec("default'", n, mag=2), control_min=lo, control_max=hi)
        o.step(vc.real("h'"), vc.vec("u'", n, mag=2))
    cm.earlier(vc, same, other)


@contract("any_limits", [(k, s) for k in KINDS for s in ("array", "scalar")], time=60)
def any_limits(vc, kind, shape):
    n = 3
    lo, hi = vc.limits("lim", n) if shape == "array" else vc.scalar_limits("lim")
    rec = cm.Rec(vc, 2)
    default = vc.vec("default", n, mag=2)
    e = cm.test_entity(vc, n, 2, init=vc.vec("s", 2), dynamics=rec, control_default=vc.copy(default), control_min=lo, control_max=hi,
                       control_map={"a": 0, "b": 1, "c": 2}, base=vc.choice("base", ("BaseEntity", "BaseRotationEntity")))
    before(vc, e, rec, n, shape)
    act, u = cm.action_of(vc, e, kind, n, default)
    _, w = vc.count_warnings(lambda: e.step(vc.real("h"), act))
    obligations(vc, e, u, cm.bro(vc, lo, n), cm.bro(vc, hi, n), rec, w, cm.exact(kind))


@contract("any_dimension", [(k, s) for k in ("none", "array", "jax") for s in ("array", "scalar")], time=60)
def any_dimension(vc, kind, shape):
    """symbolic number of actuators: the statement for one arbitrary index"""
    lo, hi = vc.limits("lim", GEN) if shape == "array" else vc.scalar_limits("lim")
    rec = cm.Rec(vc, 2)
    default = vc.vec("default", GEN, mag=2)
    e = cm.test_entity(vc, GEN, 2, init=vc.vec("s", 2), dynamics=rec, control_default=vc.copy(default), control_min=lo, control_max=hi)
    before(vc, e, rec, GEN, shape)
    act = vc.vec("u", GEN, mag=2) if kind != "none" else None
    u = vc.copy(act if act is not None else default)
    if kind == "jax":
        act = vc.jarr(act)
    _, w = vc.count_warnings(lambda: e.step(vc.real("h"), act))
    c = rec.calls[0][2]
    np = vc.np
    vc.prove("command within limits", vc.and_(vc.le(lo, c, tol=cm.exact(kind)), vc.le(c, hi, tol=cm.exact(kind))))
    vc.prove("clipped component by component", vc.eq(c, np.where(u < lo, lo, np.where(u > hi, hi, u)), tol=cm.exact(kind)))
    vc.prove("warning exactly when out of range", vc.iff(w > 0, vc.or_(np.any(u < lo), np.any(u > hi))))


DOC = {"heading_rate": "0.17453293", "gamma_rate": "0.17453293", "roll_rate": "0.08726646", "acceleration": "96.5", "thrust_x": "1", "thrust_y": "1", "thrust_z": "1"}


def arguments(vc, mod, name):
    """per actuator: the limits given at construction (each given or omitted) or documented as default"""
    ps = cm.inspect.signature(cm.real_class(mod, name).__init__).parameters
    acts = [a for a in DOC if a + "_control_min" in ps or name in ("CWHSpacecraft", "CWHRotation2dSpacecraft", "SixDOFSpacecraft", "Integrator1d", "Integrator2d", "Integrator3d") and a.startswith("thrust")]
    kw, want = {}, {}
    give = vc.choice("given", ("none", "all", "lower", "upper"))
    for a in acts:
        d = vc.num(DOC[a])
        lo, hi = -d, d
        if a + "_control_min" in ps:
            if give in ("all", "lower"):
                lo = kw[a + "_control_min"] = vc.real(a + "_min", hi=0 if give == "lower" else None, mag=2)
            if give in ("all", "upper"):
                hi = kw[a + "_control_max"] = vc.real(a + "_max", lo=0 if give == "upper" else None, mag=2)
            vc.assume(lo <= hi)
        want[a] = lo, hi
    if "thrust_control_limit" in ps and give != "none":
        t = kw["thrust_control_limit"] = vc.real("thrust", lo=0, mag=2)
        want.update((a, (-t, t)) for a in want)
    return kw, want


@contract("documented", lambda: cm.vehicles(), time=60, samples=30)
def documented(vc, mod, name):
    """the limits that apply are those given at construction, or the documented defaults"""
    kw, want = arguments(vc, mod, name)
    e = cm.make(vc, mod, name, **kw)
    rec = e.dynamics = cm.Rec(vc, len(e.state))
    u = {a: vc.real("u_" + a, mag=3) for a in e.control_map}
    e.step(vc.real("h", pos=True), u)
    c = vc.els(rec.calls[0][2])
    for a, i in e.control_map.items():
        if a in want:
            vc.prove("limits given at construction, or the documented ones, apply", vc.close(c[i], vc.clip(u[a], *want[a]), vc.num("1e-4")))


BASES = (("dubins", "BaseDubinsAircraft"), ("integrators", "BaseIntegrator"), ("base_models", "BaseRotationEntity"))


@contract("derived", [(m, n, s) for m, n in BASES for s in ("array", "scalar")], time=60, samples=30)
def derived(vc, mod, base, shape):
    """user entities on every base class of the package"""
    lo, hi = vc.limits("lim", 2) if shape == "array" else vc.scalar_limits("lim")
    rec = cm.Rec(vc, 2)
    default = vc.vec("default", 2, mag=2)
    e = cm.test_entity(vc, 2, 2, mod=mod, base=base, init=vc.vec("s", 2), dynamics=rec, control_default=vc.copy(default), control_min=lo, control_max=hi, control_map={"a": 0, "b": 1})
    act, u = cm.action_of(vc, e, vc.choice("kind", ("none", "dict", "array")), 2, default)
    _, w = vc.count_warnings(lambda: e.step(vc.real("h"), act))
    obligations(vc, e, u, cm.bro(vc, lo, 2), cm.bro(vc, hi, 2), rec, w)
