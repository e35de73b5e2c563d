"""C12 quantities with units are converted exactly and reported in base units

Postcondition of construction for a quantity of arbitrary magnitude in each unit of a table (factors to SI written here, independent of pint), of
every *_with_units accessor, and of build_unit_conversion_validator_fn for arbitrary units."""
import math
from fractions import Fraction as F
from contracts import common as cm
from vf.registry import contract

ASSUME = ["pint's conversion between two units is linear with the factor it reports for the pair (itself compared with the table of exact factors)",
          "units outside the table are not enumerated"]
PI = F(repr(math.pi))
LENGTH = {"meters": F(1), "m": F(1), "km": F(1000), "centimeter": F(1, 100), "mm": F(1, 1000), "feet": F(3048, 10000), "ft": F(3048, 10000), "inch": F(254, 10000),
          "yard": F(9144, 10000), "mile": F(1609344, 1000), "nautical_mile": F(1852)}
TIME = {"seconds": F(1), "s": F(1), "ms": F(1, 1000), "minute": F(60), "hour": F(3600)}
ANGLE = {"radians": F(1), "rad": F(1), "mrad": F(1, 1000), "degree": PI / 180, "deg": PI / 180, "arcminute": PI / 10800, "turn": 2 * PI, "grade": PI / 200}
VELOCITY = {"%s/%s" % (l, t): LENGTH[l] / TIME[t] for l in ("m", "km", "ft", "inch", "mile") for t in ("s", "minute", "hour")}
VELOCITY["knot"] = F(1852, 3600)
RATE = {"%s/%s" % (a, t): ANGLE[a] / TIME[t] for a in ("rad", "degree", "turn", "arcminute") for t in ("s", "minute", "hour")}
RATE["rpm"] = 2 * PI / 60
TABLE = {"length": LENGTH, "velocity": VELOCITY, "angle": ANGLE, "rate": RATE, "acceleration": {"m/s**2": F(1)}}
KIND = {**dict.fromkeys(("x", "y", "z"), "length"), **dict.fromkeys(("x_dot", "y_dot", "z_dot", "v", "xdot", "ydot", "zdot"), "velocity"),
        **dict.fromkeys(("theta", "heading", "gamma", "roll", "yaw", "pitch"), "angle"), **dict.fromkeys(("wx", "wy", "wz"), "rate"),
        "position": "length", "velocity": "velocity", "angular_velocity": "rate", "acceleration": "acceleration"}
WRONG = {"length": ("second", "m/s", "rad/s", "kg", "m**2", "degC", "degree", "percent", ""), "velocity": ("m", "second", "m/s**2", "kg", "s/m", "Hz", ""), "angle": ("m", "m/s", "kg", "rad/s", "second", "Hz"),
         "rate": ("m", "m/s", "kg", "second", "rad/s**2")}


def base(mod):
    """SI factor of the base unit of each kind: metres for spacecraft (and integrators), feet for aircraft; seconds, radians"""
    l = LENGTH["ft" if mod.startswith("dubins") else "m"]
    return {"length": l, "velocity": l, "acceleration": l, "angle": F(1), "rate": F(1)}


BASE = {"length": ("m", "ft"), "velocity": ("m/s", "ft/s"), "acceleration": ("m/s**2", "ft/s**2"), "angle": ("rad", "rad"), "rate": ("rad/s", "rad/s")}


def unit_fields(mod, name):
    """fields that take quantities: everything but the quaternion components and the (unit-less) integrator arguments"""
    return [] if mod == "integrators" else [f for f in cm.fields(mod, name) if f in KIND and (f, name) != ("z", "Dubins2dAircraft")]


def num(vc, f):
    return vc.q(f.numerator, f.denominator)


def near(vc, a, b):
    """equal to the precision of decimal factors (concretely: of the single precision state)"""
    return vc.close(a, b, vc.abs(b) * vc.q(1, 10 ** 9 if vc.symbolic else 10 ** 6) * 2)


@contract("converted", lambda: [(m, n, f) for m, n in cm.entities() for f in unit_fields(m, n)], time=60, samples=40)
def converted(vc, mod, name, field):
    k = KIND[field]
    u = vc.choice("unit", sorted(TABLE[k]))
    fac = TABLE[k][u] / base(mod)[k]
    want = vc.real("value", lo=-2, hi=2) if k in ("angle", "rate") else vc.real("value", mag=100)
    kw = cm.init_values(vc, mod, name, free="unit")
    kw[field] = vc.quantity(want / num(vc, fac), u)
    if vc.choice("earlier", ("none", "the same number of another unit")) != "none":
        us = sorted(TABLE[k])
        cm.cls_of(vc, mod, name)(name="d", **{**kw, field: vc.quantity(want / num(vc, fac), us[us.index(u) - 1])})
    e = cm.cls_of(vc, mod, name)(name="e", **kw)
    vc.prove("a quantity is converted to the base unit", near(vc, getattr(e, field), want))


@contract("plain", lambda: [(m, n) for m, n in cm.entities() if unit_fields(m, n)], time=30, samples=20)
def plain(vc, mod, name):
    """plain numbers are in base units; equal to the same quantity in base units"""
    kw = cm.init_values(vc, mod, name, free="unit")
    c = cm.cls_of(vc, mod, name)
    i = 1 if mod.startswith("dubins") else 0
    a = c(name="a", **kw)
    b = c(name="b", **{f: vc.quantity(v, BASE[KIND[f]][i]) if f in unit_fields(mod, name) else v for f, v in kw.items()})
    vc.prove("plain numbers are in base units", vc.same(a.state, b.state))


@contract("rejected", lambda: [(m, n, f) for m, n in cm.entities() for f in unit_fields(m, n)], time=30, samples=20)
def rejected(vc, mod, name, field):
    k = KIND[field]
    kw = cm.init_values(vc, mod, name, free="unit")
    kw[field] = vc.quantity(vc.real("value", mag=10), vc.choice("unit", WRONG[k]))
    c = cm.cls_of(vc, mod, name)
    vc.prove("incompatible quantity is rejected as a validation error", vc.raises(("ValidationError",), lambda: c(name="e", **kw)))


@contract("accessors", lambda: [(m, n) for m, n in cm.entities()], time=40, samples=30)
def accessors(vc, mod, name):
    c = cm.cls_of(vc, mod, name)
    acc = sorted({a.split("_with_unit")[0] for a in dir(cm.real_class(mod, name)) if a.endswith(("_with_units", "_with_unit"))})
    vc.prove("every documented accessor with units exists", {"x", "y", "z", "position", "velocity"} <= set(acc))
    a = vc.choice("accessor", acc)
    vc.prove("the accessor's dimension is specified", a in KIND)
    e = cm.make(vc, mod, name, free="unit")
    if a != "acceleration" and vc.choice("state", ("constructed", "assigned")) == "assigned":
        e.state = vc.vec("s", len(e.state), mag=3)
        if hasattr(type(e), "q1"):
            vc.assume(vc.or_(*[vc.not_(x == 0) for x in (e.q1, e.q2, e.q3, e.q4)])) if len(e.state) > 7 else None
    if a == "acceleration":
        e.state_dot = vc.vec("sd", len(e.state), mag=3)
    try:
        want = getattr(e, a)
    except NotImplementedError:
        return
    except AttributeError:
        return        # an angular velocity the entity does not have
    q = getattr(e, a + ("_with_units" if hasattr(type(e), a + "_with_units") else "_with_unit"))
    i = 1 if mod.startswith("dubins") else 0
    vc.prove("accessor with units reports the plain value", vc.same(vc.els(q.magnitude), vc.els(want)))
    import pint
    vc.prove("accessor with units is in the base unit", q.units == pint.get_application_registry().Unit(BASE[KIND[a]][i]))
    alt = sorted(TABLE[KIND[a]])
    u = vc.choice("into", alt[:: max(1, len(alt) // 3)]) if KIND[a] != "acceleration" else "m/s**2"
    fac = base(mod)[KIND[a]] / TABLE[KIND[a]][u]
    got = vc.els(q.to(u).magnitude)
    vc.prove("the quantity converts to other units", vc.and_(*[near(vc, g, w * num(vc, fac)) for g, w in zip(got, vc.els(want))]))


PAIRS = {"length": ("m", "ft", "km", "inch"), "velocity": ("m/s", "ft/s", "knot"), "angle": ("rad", "deg"), "rate": ("rad/s", "degree/minute")}


@contract("validator", lambda: [(k, u) for k in sorted(PAIRS) for u in PAIRS[k]], time=30, samples=30)
def validator(vc, kind, to):
    """build_unit_conversion_validator_fn for any target unit, given by name or as a unit object"""
    import pint
    target = to if vc.choice("given as", ("name", "unit")) == "name" else pint.get_application_registry().Unit(to)
    fn = vc.mod("base_models").build_unit_conversion_validator_fn(target)
    v = vc.real("v", mag=10)
    vc.prove("plain number unchanged", vc.same(fn(v), v))
    u = vc.choice("from", sorted(TABLE[kind]))
    if vc.choice("magnitude", ("real", "integer")) == "integer":
        v = vc.int("whole", -40, 40)
    if vc.choice("earlier", (False, True)):
        us = sorted(TABLE[kind])
        fn(v)
        fn(vc.quantity(v, us[us.index(u) - 1]))
    vc.prove("converted by the exact factor", near(vc, fn(vc.quantity(v, u)), v * num(vc, TABLE[kind][u] / TABLE[kind][to])))
    bad = vc.choice("incompatible", WRONG[kind])
    vc.prove("incompatible is an error pydantic reports", vc.raises(("ValueError",), lambda: fn(vc.quantity(v, bad))))


@contract("base_units", None, samples=40)
def base_units(vc):
    """derived units of a unit system"""
    l, t, a = vc.choice("length", ("m", "ft", "km")), vc.choice("time", ("s", "minute", "hour")), vc.choice("angle", ("rad", "degree"))
    import pint
    U = pint.get_application_registry().Unit
    b = vc.mod("base_models").BaseUnits(l, t, a)
    for got, want in ((b.length, l), (b.time, t), (b.angle, a), (b.velocity, "%s/%s" % (l, t)), (b.angular_velocity, "%s/%s" % (a, t)),
                      (b.acceleration, "%s/%s**2" % (l, t)), (b.angular_acceleration, "%s/%s**2" % (a, t))):
        vc.prove("derived units", got == U(want))
