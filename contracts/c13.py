"""C13 entity equality is a true equivalence on kinematic state

Postcondition of every __eq__ for two arbitrary states of every pair of classes."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["attitude of the planar spacecraft is compared through the quaternion it reports (angle in [-pi, pi])",
          "Dubins aircraft in the same state have the same reported derivative"]
OTHERS = {"None": lambda: None, "int": lambda: 3, "str": lambda: "e", "list": lambda: [1.0], "dict": lambda: {}, "object": object, "class": lambda: int, "tuple": lambda: (0, 0, 0)}


def kin(vc, e):
    """kinematic quantities an entity reports"""
    out = vc.els(e.position) + vc.els(e.velocity)
    for k in ("q1", "q2", "q3", "q4", "wx", "wy", "wz", "heading", "gamma", "roll", "v"):
        if hasattr(type(e), k):
            out.append(getattr(e, k))
    return out


def eqs(vc, a, b):
    r = a == b
    return r


@contract("same_class", lambda: cm.vehicles(), time=60, samples=60, feas_ms=150)
def same_class(vc, mod, name):
    kw = cm.init_values(vc, mod, name, "a", free="unit")
    c = cm.cls_of(vc, mod, name)
    a, b = c(name="a", **kw), c(name="b", **kw)
    vc.prove("equal to itself", eqs(vc, a, a))
    vc.prove("equal to another in the same state", eqs(vc, a, b))
    kw2 = dict(kw)
    other = cm.init_values(vc, mod, name, "b", free="unit")
    ch = vc.choice("changed", ["all"] + sorted(k for k in kw if k[0] != "q" or len(k) != 2) + (["attitude"] if "q1" in kw else []))
    for k in kw:
        if ch == "all" or k == ch or ch == "attitude" and k in ("q1", "q2", "q3", "q4"):
            kw2[k] = other[k]
    d = c(name="a", **kw2)
    same = vc.same(kin(vc, a), kin(vc, d))
    r, l_ = eqs(vc, a, d), eqs(vc, d, a)
    vc.prove("symmetric", vc.iff(r, l_))
    vc.prove("equal states compare equal", vc.implies(vc.same(a.state, d.state), r))
    vc.prove("different position, velocity or attitude compare unequal", vc.implies(r, same))
    vc.prove("!= is the negation", vc.iff(a != d, vc.not_(r)))


@contract("company", lambda: cm.vehicles(), time=60, samples=40, feas_ms=150)
def company(vc, mod, name):
    """equality looks at the class and the state alone: not at partners, leads, simulations, names, parameters, limits or integration method"""
    kw = cm.init_values(vc, mod, name, "a", free="unit")
    c = cm.cls_of(vc, mod, name)
    k = vc.choice("what differs", [x for x in ("register_partner", "register_lead", "set_sim") if hasattr(c, x)] + ["parameters", "integration method", "trajectory samples", "default command"])
    kw2 = dict(kw)
    ps = cm.inspect.signature(cm.real_class(mod, name).__init__).parameters
    if k == "parameters":
        kw2.update({x: v for x, v in cm.cfg(vc, mod, name, "o").items()})
    elif k == "integration method" and "integration_method" in ps:
        kw2["integration_method"] = "Euler"
    elif k == "trajectory samples" and "trajectory_samples" in ps:
        kw2["trajectory_samples"] = 2
    a, b = c(name="a", **kw), c(name="b", **kw2)
    d = c(name="d", **{**kw, **{x: y for x, y in cm.init_values(vc, mod, name, "b", free="unit").items() if x in ("x", "v")}})
    different = vc.not_(a == d)
    if k in ("register_partner", "register_lead", "set_sim"):
        o = vc.choice("whom", ("the other", "itself", "a third"))
        x = {"the other": a, "itself": b, "a third": d}[o]
        getattr(b, k)(x if k != "set_sim" else cm.types.SimpleNamespace(sim_entities={"a": a, "b": b}))
        if o == "the other" and k != "set_sim" and vc.choice("mutual", (False, True)):
            getattr(a, k)(b)
    elif k == "default command":
        b.control_default = b.control_default + 0.25
    vc.prove("equal to another in the same state", vc.and_(a == b, b == a, b == b))
    vc.prove("a different one stays different", vc.and_(vc.iff(different, vc.not_(b == d)), vc.iff(different, vc.not_(d == b))))


@contract("after_step", lambda: cm.vehicles(), time=60, samples=30)
def after_step(vc, mod, name):
    """still equal after identical steps, and equal to itself after any step"""
    kw = cm.init_values(vc, mod, name, "a", free="unit")
    c = cm.cls_of(vc, mod, name)
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    a, b = (c(name=n, integration_method="Euler", **kw) for n in "ab")
    h = cm.duration(vc)
    a.step(h)
    b.step(h)
    if hasattr(type(a), "quaternion") and "q1" in kw:
        vc.assume_defined("the stepped quaternion is not zero")
    if not vc.symbolic:
        vc.assume(all(x == x for x in a.state))
    vc.prove("equal to itself", eqs(vc, a, a))
    vc.prove("equal to another in the same state", eqs(vc, a, b))


@contract("other_kinds", lambda: [(m, n) for m, n in cm.entities()], time=60, samples=60)
def other_kinds(vc, mod, name):
    a = cm.make(vc, mod, name, free="unit")
    m2, n2 = vc.choice("kind", [x for x in cm.entities() if x != (mod, name)])
    shared = {}
    b = cm.cls_of(vc, m2, n2)(name="e", **{**cm.init_values(vc, m2, n2, "b", free="unit"), **shared})
    for s in ((a, b), (b, a)):
        r = s[0] == s[1]
        vc.prove("entities of different kinds are unequal", vc.not_(r))
    # same kinematic values where both model them
    fs = [f for f in cm.fields(mod, name) if f in cm.fields(m2, n2)]
    kw = cm.init_values(vc, mod, name, "s", fs, free="unit")
    if "v" in kw and not vc.symbolic:
        kw["v"] = abs(kw["v"])
    p = cm.cls_of(vc, mod, name)(name="e", **kw)
    q = cm.cls_of(vc, m2, n2)(name="e", **kw)
    vc.prove("entities of different kinds are unequal", vc.and_(vc.not_(p == q), vc.not_(q == p)))


@contract("other_objects", lambda: [(m, n) for m, n in cm.entities()], time=60, samples=24)
def other_objects(vc, mod, name):
    a = cm.make(vc, mod, name, free="unit")
    o = OTHERS[vc.choice("object", sorted(OTHERS))]()
    vc.prove("any other object is unequal", vc.and_(vc.not_(a == o), vc.not_(o == a)))


@contract("sun", None, samples=10)
def sun(vc):
    c = cm.cls_of(vc, "cwh.sun_model", "SunEntity")
    a, b = c(name="a", theta=vc.real("t", mag=3)), c(name="b", theta=0)
    vc.prove("equal to itself", a == a)
    b.state = a.state
    vc.prove("equal to another in the same state", vc.and_(a == b, b == a))


@contract("signed_zero", lambda: cm.vehicles(), samples=30)
def signed_zero(vc, mod, name):
    """zero and negative zero are the same number"""
    kw = cm.init_values(vc, mod, name, "a", free="unit")
    ks = sorted(k for k in kw if k not in ("v", "q4"))
    k = vc.choice("zero", ks)
    if k in ("q1", "q2", "q3"):
        kw.update({"q1": 0.0, "q2": 0.0, "q3": 0.0, "q4": 1.0})
    c = cm.cls_of(vc, mod, name)
    a, b = c(name="a", **{**kw, k: 0.0}), c(name="b", **{**kw, k: -0.0})
    vc.prove("equal to another in the same state", vc.and_(a == b, b == a))
