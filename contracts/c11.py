"""C11 construction puts every initial value where the accessors read it

Postcondition of each entity constructor for every subset of given arguments and all values."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["the quaternion vector is composed of its scalars for unit quaternions (the accessor normalises)", "a quantity not modelled by a planar or 1d entity (z of Dubins2d; y, z of Integrator1d, ...) reads 0"]
ACC = {"xdot": "x_dot", "ydot": "y_dot", "zdot": "z_dot"}
UNMODELLED = {"Dubins2dAircraft": {"z"}, "Integrator1d": {"y", "z", "ydot", "zdot"}, "Integrator2d": {"z", "zdot"}}
DEFAULT = {"v": 200, "q4": 1}
BAD = ["bogus", "X", "position", "velocity", "vx", "xx", "state", "x_", "q5", "mass"]


def check_all(vc, e, mod, name, kw, fs):
    for f in fs:
        if f in UNMODELLED.get(name, ()):
            continue
        got = getattr(e, ACC.get(f, f))
        if f in kw:
            vc.prove("argument is reported under its name", vc.eq(got, kw[f], tol=1e-6, scale=0))
        else:
            vc.prove("omitted argument takes its default", vc.eq(got, DEFAULT.get(f, 0), tol=1e-6))


@contract("arguments", lambda: [(m, n, w) for m, n in cm.entities() for w in ("all", "none", "single", "subset")], time=60, samples=40)
def arguments(vc, mod, name, which):
    fs = cm.fields(mod, name)
    full = cm.init_values(vc, mod, name, free=True)
    if which == "single":
        pick = [vc.choice("given", fs)]
    elif which == "subset":
        k = vc.choice("half", (0, 1, 2, 3))
        pick = [f for i, f in enumerate(fs) if (i + k) % 2 == 0] if k < 2 else fs[:len(fs) // 2] if k == 2 else fs[len(fs) // 2:]
    else:
        pick = fs if which == "all" else []
    if {"q1", "q4"} & set(pick) and not {"q1", "q2", "q3", "q4"} <= set(pick) and which != "single":
        pick = [f for f in fs if f in pick or f[0] == "q"]
    kw = {f: full[f] for f in pick}
    e = cm.cls_of(vc, mod, name)(name="the name", **kw)
    vc.prove("name kept", e.name == "the name")
    check_all(vc, e, mod, name, kw, fs)
    vc.prove("reported derivative starts at zero", vc.eq(e.state_dot, 0) if len(vc.els(e.state_dot)) == len(vc.els(e.state)) else False)
    if which == "none" and name != "SunEntity":
        vc.prove("defaults are a valid state", vc.eq(e.orientation.apply(vc.arr([1, 0, 0])), [1, 0, 0]))
        if hasattr(type(e), "q1"):
            vc.prove("default attitude is a unit quaternion", vc.eq(e.q1 * e.q1 + e.q2 * e.q2 + e.q3 * e.q3 + e.q4 * e.q4, 1))


VEC = {"position": ("x", "y", "z"), "velocity": ("x_dot", "y_dot", "z_dot"), "angular_velocity": ("wx", "wy", "wz"), "quaternion": ("q1", "q2", "q3", "q4")}


@contract("vectors", lambda: cm.vehicles(), time=60, samples=40)
def vectors(vc, mod, name):
    e = cm.make(vc, mod, name, free="unit")
    if vc.choice("state", ("constructed", "assigned")) == "assigned" and not hasattr(type(e), "quaternion"):
        e.state = vc.vec("s", len(e.state), mag=20)
    for v, parts in VEC.items():
        if not hasattr(type(e), v) or not all(hasattr(type(e), p) for p in parts):
            continue
        got = vc.els(getattr(e, v))
        vc.prove("vector accessor has the modelled components", 1 <= len(got) <= len(parts) and (len(got) == len(parts) or name.startswith("Integrator")))
        for g, p in zip(got, parts):
            vc.prove("%s is composed of its scalars" % v, vc.eq(g, getattr(e, p), tol=1e-6))
        for p in parts[len(got):]:
            vc.prove("components left out are zero", vc.eq(getattr(e, p), 0))


@contract("exactly", lambda: cm.vehicles(), time=60, samples=40)
def exactly(vc, mod, name):
    """changing one initial value changes the accessor of that name only"""
    fs = [f for f in cm.fields(mod, name) if f not in UNMODELLED.get(name, ())]
    f = vc.choice("field", fs)
    kw = cm.init_values(vc, mod, name, free=True)
    kw2 = dict(kw)
    kw2[f] = vc.real("changed", mag=1)
    c = cm.cls_of(vc, mod, name)
    a, b = c(name="a", **kw), c(name="b", **kw2)
    for g in fs:
        x, y = getattr(a, ACC.get(g, g)), getattr(b, ACC.get(g, g))
        vc.prove("only the named quantity changes", vc.eq(y, kw2[g], tol=1e-6, scale=0) if g == f else vc.same(x, y))


@contract("assigned", lambda: cm.vehicles(), time=60, samples=40)
def assigned(vc, mod, name):
    """an accessor that can be assigned changes the quantity it reports, and no other"""
    c = cm.cls_of(vc, mod, name)
    fs = [f for f in cm.fields(mod, name) if f not in UNMODELLED.get(name, ())]
    settable = [f for f in fs if isinstance(getattr(c, ACC.get(f, f), None), property) and getattr(c, ACC.get(f, f)).fset]
    if not settable:
        return vc.prove("nothing can be assigned", True)
    e = cm.make(vc, mod, name, free=True)
    if vc.choice("stepped", (False, True)) and not vc.symbolic:
        e.step(cm.duration(vc))
    f = vc.choice("assigned", settable)
    before = {g: getattr(e, ACC.get(g, g)) for g in fs}
    val = vc.real("value", mag=1)
    setattr(e, ACC.get(f, f), val)
    for g in fs:
        x = getattr(e, ACC.get(g, g))
        vc.prove("an assigned quantity is reported, and no other changes", vc.eq(x, val, tol=1e-6, scale=0) if g == f else vc.same(x, before[g]))


@contract("unknown_argument", lambda: cm.entities(), time=30, samples=20)
def unknown_argument(vc, mod, name):
    kw = cm.init_values(vc, mod, name, free=True)
    bad = vc.choice("bad", [b for b in BAD if b not in kw])
    kw[bad] = vc.real("value")
    vc.prove("unknown argument rejected", vc.raises(("ValidationError", "TypeError", "ValueError"), lambda: cm.cls_of(vc, mod, name)(name="e", **kw)))
