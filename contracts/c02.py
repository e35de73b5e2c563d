"""C02 actions are translated into commands faithfully, and bad ones rejected

Contract of BaseEntity.step: command(action) is the default for None, the action itself for list/array, the default with exactly
the named components replaced for a dictionary; KeyError for unpublished names, ValueError for other types."""
import collections
import types

from contracts import common as cm
from vf.engine import GEN
from vf.registry import contract

ASSUME = ["a dictionary action is given only to an entity that publishes actuator names (the library asserts this)",
          "actions have one component per actuator (shape mismatches are outside the contract)"]
UNSUPPORTED = {"tuple": lambda vc, v: tuple(v), "string": lambda vc, v: "thrust_x", "set": lambda vc, v: {1, 2}, "float": lambda vc, v: 1.5,
               "int": lambda vc, v: 3, "bool": lambda vc, v: True, "object": lambda vc, v: object(), "generator": lambda vc, v: (x for x in v),
               "deque": lambda vc, v: collections.deque(v), "mapping": lambda vc, v: collections.UserDict(thrust_x=1.0), "map view": lambda vc, v: types.MappingProxyType({}),
               "frozenset": lambda vc, v: frozenset((1, 2)), "complex": lambda vc, v: 1j, "dict items": lambda vc, v: {}.items(), "iterator": lambda vc, v: iter(v), "class": lambda vc, v: dict,
               "range": lambda vc, v: range(3), "bytes": lambda vc, v: b"ab", "zero": lambda vc, v: 0, "empty tuple": lambda vc, v: ()}
NAMES = ["thrust", "thrust_w", "Thrust_x", "", "heading", "moment", "no_such_actuator", 0, None, ("thrust_x",)]


def prepared(vc, mod, name):
    e = cm.make(vc, mod, name)
    n = len(e.control_default)
    e.control_min, e.control_max = -vc.inf, vc.inf
    if vc.choice("default", ("own", "arbitrary")) == "arbitrary":
        e.control_default = vc.vec("default", n, mag=2)
    rec = e.dynamics = cm.Rec(vc, len(e.state))
    return e, n, rec


class SubDict(dict):
    pass


class SubList(list):
    pass


def subclassed(vc, act):
    """the same dictionary or list, possibly as an instance of a subclass"""
    if isinstance(act, dict):
        k = vc.choice("class", ("dict", "OrderedDict", "defaultdict", "subclass"))
        return {"dict": dict, "OrderedDict": collections.OrderedDict, "defaultdict": lambda a: collections.defaultdict(float, a), "subclass": SubDict}[k](act)
    if isinstance(act, list):
        return vc.choice("class", (list, SubList))(act)
    return act


@contract("command", lambda: [(m, n, k) for m, n in cm.entities() for k in ("none", "dict", "list", "array", "ints")], time=60, samples=40)
def command(vc, mod, name, kind):
    e, n, rec = prepared(vc, mod, name)
    if kind == "dict" and e.control_map is None:
        return vc.prove("no published actuators", n == 0)
    act, u = cm.action_of(vc, e, kind, n)
    if kind == "dict" and vc.choice("order", ("published", "reversed")) == "reversed":
        act = dict(reversed(list(act.items())))
    e.step(vc.real("h", pos=True), subclassed(vc, act))
    c = vc.els(rec.calls[0][2])
    vc.prove("one component per actuator", len(c) == n)
    vc.prove("command is the action's", vc.eq(c, u, tol=cm.exact(kind)) if n else True)


def variants(names):
    """names close to a published one"""
    k = sorted(names)[-1]
    return [k + " ", " " + k, k + "\n", k.upper(), k.title(), k.swapcase(), k[:-1], k + "_", "_" + k, k.replace("_", " "), k.replace("_", "-"), k.replace("_", ""), k + "_control", k.encode(), 1, -1, 1.0, True]


@contract("unknown_name", lambda: [(m, n) for m, n in cm.vehicles()], time=60, samples=60)
def unknown_name(vc, mod, name):
    e, n, rec = prepared(vc, mod, name)
    some = vc.choice("others", ("none", "one", "all"))
    act = {k: vc.real("u_" + k, mag=2) for k in sorted(e.control_map)[:{"none": 0, "one": 1, "all": n}[some]]}
    bad = vc.choice("bad", [x for x in NAMES + ["thrust_x", "thrust_y", "thrust_z", "moment_x", "roll_rate"] + variants(e.control_map) if x not in e.control_map])
    pos = vc.choice("position", ("first", "last"))
    act = {bad: 0, **act} if pos == "first" else {**act, bad: vc.real("bad_value")}
    vc.prove("unpublished actuator name raises KeyError", vc.raises("KeyError", lambda: e.step(1, act)))


@contract("unsupported_type", lambda: [(m, n) for m, n in cm.entities()], time=60, samples=60)
def unsupported_type(vc, mod, name):
    e, n, rec = prepared(vc, mod, name)
    k = vc.choice("type", sorted(UNSUPPORTED))
    act = UNSUPPORTED[k](vc, [vc.real("u%d" % i) for i in range(n)])
    vc.prove("unsupported action type raises ValueError", vc.raises("ValueError", lambda: e.step(1, act)))


MAPS = [{"a": 1, "b": 0}, {"a": 2, "b": 0, "c": 1}, {"b": 1, "a": 2}, {"a": -1, "b": 0}, {"z": 0}, {"a": 0, "b": 1, "c": 2}, {}]


@contract("user_map", ["dict", "none", "list", "array"], time=60, samples=60)
def user_map(vc, kind):
    """actuators published in any order, and for a part of the command vector"""
    n, rec, default = 3, cm.Rec(vc, 2), vc.vec("default", 3, mag=2)
    e = cm.test_entity(vc, n, 2, init=vc.vec("s", 2), dynamics=rec, control_default=vc.copy(default), control_map=dict(vc.choice("map", MAPS)),
                       base=vc.choice("base", ("BaseEntity", "BaseRotationEntity")))
    cm.earlier(vc, lambda: e.step(vc.real("h'"), {k: vc.real("u'_" + k) for k in e.control_map}))
    act, u = cm.action_of(vc, e, kind, n, default)
    if kind == "dict" and vc.choice("order", ("published", "reversed")) == "reversed":
        act = dict(reversed(list(act.items())))
    e.step(vc.real("h"), subclassed(vc, act))
    vc.prove("command is the action's", vc.eq(vc.els(rec.calls[-1][2]), u, tol=cm.exact(kind)))


@contract("any_dimension", ["none", "array"], time=60)
def any_dimension(vc, kind):
    """symbolic number of actuators"""
    rec = cm.Rec(vc, 2)
    e = cm.test_entity(vc, GEN, 2, init=vc.vec("s", 2), dynamics=rec, control_default=vc.vec("default", GEN, mag=2))
    act = vc.vec("u", GEN, mag=2) if kind == "array" else None
    want = vc.copy(act if act is not None else e.control_default)
    e.step(vc.real("h"), act)
    vc.prove("command is the action's", vc.eq(rec.calls[0][2], want))


@contract("jax_array", lambda: cm.vehicles(), time=60, samples=20)
def jax_array(vc, mod, name):
    """an immutable jax array as the action, on every entity class"""
    e, n, rec = prepared(vc, mod, name)
    u = vc.vec("u", n, mag=2)
    want = vc.els(vc.copy(u))
    e.step(vc.real("h", pos=True), vc.jarr(u))
    c = vc.els(rec.calls[0][2])
    vc.prove("one component per actuator", len(c) == n)
    vc.prove("command is the action's", vc.eq(c, want, tol=1e-5))


@contract("jax_any", time=60, samples=20)
def jax_any(vc):
    """a jax array of symbolic length; finite limits force the saturation code to run on it"""
    rec = cm.Rec(vc, 2)
    lo, hi = vc.limits("lim", GEN)
    e = cm.test_entity(vc, GEN, 2, init=vc.vec("s", 2), dynamics=rec, control_default=vc.vec("default", GEN, mag=2), control_min=lo, control_max=hi)
    u = vc.vec("u", GEN, mag=2)
    want = vc.copy(u)
    e.step(vc.real("h"), vc.jarr(u))
    vc.prove("command is the action's, saturated", vc.eq(rec.calls[0][2], vc.np.clip(want, lo, hi), tol=1e-5))
