"""C18 rotational limits follow the weaker of vehicle and reaction wheel

Postcondition of the spacecraft constructors for arbitrary inertia, requested limits and wheel data, read from the entity and from what a step
does; contract of number_list_to_np."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["positive inertia and non-negative requested limits and wheel data", "steps use the explicit Euler method (limits are the same for all methods: C04)"]
P, R = ("cwh.rotational_model", "CWHRotation2dSpacecraft"), ("cwh.sixdof_model", "SixDOFSpacecraft")
AX = ("x", "y", "z")


def wheel(vc):
    return {"inertia_wheel": vc.real("Iw", lo=0, mag=1e-2), "acc_limit_wheel": vc.real("aw", lo=0, mag=200), "vel_limit_wheel": vc.real("vw", lo=0, mag=600)}


def limit_arg(vc, name, form, mag):
    """a limit as scalar, list or array, and its three values"""
    if form in ("scalar", "int"):
        a = vc.real(name, lo=0, mag=mag) if form == "scalar" else vc.choice(name, (0, 1, 2))
        return a, [a] * 3
    v = [vc.real("%s%d" % (name, i), lo=0, mag=mag) for i in range(3)]
    return (list(v) if form == "list" else vc.np.array(v, dtype=vc.np.float64)), v


def build(vc, name, forms=("scalar", "scalar")):
    kw = cm.cfg(vc, *(R if name == "6" else P))
    w = wheel(vc)
    aa, av = limit_arg(vc, "acc_limit", forms[0], 0.1)
    va, vv = limit_arg(vc, "vel_limit", forms[1], 0.1)
    t = {"thrust_control_limit": vc.real("thrust_limit", lo=0, mag=3)} if name == "6" else {}
    mod, nm = R if name == "6" else P
    e = cm.make(vc, mod, nm, ang_acc_limit=aa, ang_vel_limit=va, integration_method="Euler", **w, **kw, **t)
    In = cm.principal(kw)
    acc = [None if I is None else vc.min(a, w["inertia_wheel"] * w["acc_limit_wheel"] / I) for I, a in zip(In, av)]
    vel = [None if I is None else vc.min(v, w["inertia_wheel"] * w["vel_limit_wheel"] / I) for I, v in zip(In, vv)]
    return e, In, acc, vel, t.get("thrust_control_limit", 1), (aa, va)


FORMS = [("6", a, b) for a in ("scalar", "int", "list", "array") for b in ("scalar", "list", "array", "int")] + [("2", "scalar", "scalar"), ("2", "int", "int")]


@contract("limits", FORMS, time=60, samples=40)
def limits(vc, name, fa, fv):
    e, In, acc, vel, thrust, _ = build(vc, name, (fa, fv))
    lo, hi = cm.bro(vc, e.control_min, len(e.control_default)), cm.bro(vc, e.control_max, len(e.control_default))
    for k, i in e.control_map.items():
        kind, ax = k.split("_")
        if kind == "thrust":
            vc.prove("thrust limit is the configured one", vc.eq(hi[i], thrust, tol=1e-6))
        else:
            j = AX.index(ax)
            vc.prove("moment limit is inertia times the weaker angular acceleration", vc.eq(hi[i], In[j] * acc[j], tol=1e-7))
        vc.prove("limits are symmetric about zero", vc.eq(lo[i], -hi[i], tol=1e-9))
    d = e.dynamics
    n = len(e.state)
    top, bot = cm.at(vc, e, vc.arr(cm.bro(vc, d.state_max, n))), cm.at(vc, e, vc.arr(cm.bro(vc, d.state_min, n)))
    for j, ax in enumerate(AX):
        if vel[j] is None:
            continue
        vc.prove("angular rate limit is the weaker angular velocity", vc.eq(getattr(top, "w" + ax), vel[j], tol=1e-6))
        vc.prove("angular rate limit is symmetric", vc.eq(getattr(bot, "w" + ax), -getattr(top, "w" + ax), tol=1e-9))


@contract("command", [("6", "scalar"), ("6", "list"), ("6", "array"), ("2", "scalar")], time=60, samples=60)
def command(vc, name, form):
    """what reaches the dynamics: the demand, limited"""
    e, In, acc, _, thrust, _ = build(vc, name, (form, form))
    k = vc.choice("actuator", sorted(e.control_map))
    u = vc.real("u", mag=2)
    c = cm.command_of(vc, e, {k: u})
    kind, ax = k.split("_")
    lim = thrust if kind == "thrust" else In[AX.index(ax)] * acc[AX.index(ax)]
    vc.prove("command is limited to what vehicle and wheel deliver", vc.eq(c[e.control_map[k]], vc.max(vc.min(u, lim), -lim), tol=1e-6))


@contract("rates", [("6", "scalar"), ("6", "list"), ("6", "array"), ("2", "scalar")], time=60, samples=60)
def rates(vc, name, form):
    """after a step the rates are within the weaker limit"""
    e, In, acc, vel, _, _ = build(vc, name, (form, form))
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    e.step(cm.duration(vc), vc.vec("u", len(e.control_default), mag=1))
    for j, ax in enumerate(AX):
        if vel[j] is not None:
            w = getattr(e, "w" + ax)
            vc.prove("angular rate stays within the weaker limit", vc.and_(vc.le(w, vel[j], tol=1e-6), vc.le(-vel[j], w, tol=1e-6)))


@contract("inputs_kept", [("list",), ("array",)], time=30, samples=20)
def kept(vc, form):
    """several spacecraft built from the same limits: each gets its own"""
    kw = cm.cfg(vc, *R)
    kw2 = cm.cfg(vc, *R, tag="b")
    w = wheel(vc)
    aa, av = limit_arg(vc, "acc_limit", form, 0.1)
    va, vv = limit_arg(vc, "vel_limit", form, 0.1)
    c = cm.cls_of(vc, *R)
    a = c(name="a", ang_acc_limit=aa, ang_vel_limit=va, **w, **kw)
    m = vc.els(vc.copy(a.control_max))
    b = c(name="b", ang_acc_limit=aa, ang_vel_limit=va, **w, **kw2)
    f = c(name="f", ang_acc_limit=list(av) if form == "list" else vc.np.array(av, dtype=vc.np.float64), ang_vel_limit=list(vv) if form == "list" else vc.np.array(vv, dtype=vc.np.float64), **w, **kw2)
    vc.prove("the limits passed in are not modified", vc.and_(vc.same(vc.els(aa), av), vc.same(vc.els(va), vv)))
    vc.prove("another vehicle's construction does not change the limits", vc.same(a.control_max, m))
    vc.prove("equal arguments, equal limits", vc.and_(vc.same(b.control_max, f.control_max), vc.same(b.dynamics.state_max, f.dynamics.state_max)))


@contract("defaults", [(P,), (R,)], time=30, samples=10)
def defaults(vc, cls):
    """documented defaults: 0.017453 rad/s^2, 0.034907 rad/s, wheel 4.1e-5 kg m^2, 181.3 rad/s^2, 576 rad/s"""
    c = cm.cls_of(vc, *cls)
    a = c(name="a")
    b = c(name="b", ang_acc_limit=vc.num("0.017453"), ang_vel_limit=vc.num("0.034907"), inertia_wheel=vc.num("0.000041"), acc_limit_wheel=vc.num("181.3"), vel_limit_wheel=vc.num("576"))
    n = len(a.state)
    vc.prove("documented default limits", vc.and_(vc.eq(a.control_max, b.control_max, tol=1e-9), vc.eq(a.control_min, b.control_min, tol=1e-9),
                                                  vc.eq(cm.bro(vc, a.dynamics.state_max, n), cm.bro(vc, b.dynamics.state_max, n), tol=1e-9)))


@contract("number_list_to_np", [(f,) for f in ("scalar", "int", "list", "array", "short", "long", "short_array", "other", "nested")], time=30, samples=20)
def helper(vc, form):
    import importlib
    f = vc.mod("utils").number_list_to_np
    v = [vc.real("v%d" % i, mag=3) for i in range(3)]
    A = lambda x: vc.np.array(x, dtype=vc.np.float64)   # noqa: E731
    arg = {"scalar": v[0], "int": 2, "list": v, "array": A(v), "short": v[:2], "long": v + [v[0]], "short_array": A(v[:2]), "other": vc.choice("other", (None, "1", (1, 2, 3))), "nested": [v]}[form]
    if form in ("scalar", "int", "list", "array"):
        want = [v[0]] * 3 if form == "scalar" else [2] * 3 if form == "int" else v
        vc.prove("standardised to an array of the shape", vc.same(vc.els(f(arg, shape=(3,))), want))
    else:
        vc.prove("anything else is rejected", vc.raises(("AssertionError", "TypeError", "ValueError"), lambda: f(arg, shape=(3,))))
