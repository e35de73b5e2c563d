"""Shared harness parts: discovery of the repository's entity and dynamics classes and their construction (public API only)."""
import collections
import contextlib
import importlib
import inspect
import pkgutil
import threading
import types
import weakref

PKG = "safe_autonomy_dynamics"


def _modules():
    import safe_autonomy_dynamics as p
    out = []
    for m in pkgutil.walk_packages(p.__path__, PKG + "."):
        if ".external" in m.name:
            continue
        try:
            out.append(importlib.import_module(m.name))
        except Exception:  # noqa: BLE001
            continue
    return out


def _classes(basename):
    import safe_autonomy_dynamics.base_models as bm
    base = getattr(bm, basename)
    out = []
    for m in _modules():
        for n, c in sorted(vars(m).items()):
            if inspect.isclass(c) and issubclass(c, base) and c.__module__ == m.__name__ and not inspect.isabstract(c) and not n.startswith("_"):
                out.append((m.__name__[len(PKG) + 1:], n))
    return sorted(set(out))


def entities():
    return _classes("BaseEntity")


def dynamics_classes():
    return _classes("BaseDynamics")


def models():
    """the dynamics of the package: module, class, mode, dimension of state and command"""
    out = []
    for m, n in dynamics_classes():
        modes = ("1d", "2d", "3d") if n == "IntegratorDynamics" else (None,)
        for mode in modes:
            d = {"IntegratorDynamics": (2 * int((mode or "0d")[0]), int((mode or "0d")[0])), "CWHDynamics": (6, 3), "SunDynamics": (1, 0),
                 "CWHRotation2dDynamics": (6, 3), "SixDOFDynamics": (13, 6), "Dubins2dDynamics": (4, 2), "Dubins3dDynamics": (7, 3)}.get(n)
            if d:
                out.append((m, n, mode) + d)
    return out


def model(vc, mod, name, mode, **kw):
    if mode:
        kw["mode"] = mode
    return getattr(vc.mod(mod), name)(**kw)


def real_class(mod, name):
    return getattr(importlib.import_module(PKG + "." + mod), name)


def cls_of(vc, mod, name):
    return getattr(vc.mod(mod), name)


_FIELDS = {}


def fields(mod, name):
    """initial-condition argument names of an entity class"""
    k = (mod, name)
    if k not in _FIELDS:
        c = real_class(mod, name)
        v = c._get_config_validator()
        _FIELDS[k] = [f for f in v.model_fields if f != "name"]
    return _FIELDS[k]


def init_values(vc, mod, name, tag="", flds=None, any_roll=False, free=False):
    """arbitrary initial values of every field: unit quaternion, positive speed, roll inside (-pi/2, pi/2); free="unit": any speed and roll as well;
    free=True: any quaternion but zero too"""
    fs = flds if flds is not None else fields(mod, name)
    kw = {}
    any_roll = any_roll or free
    if {"q1", "q2", "q3", "q4"} <= set(fs):
        q = vc.quat(tag + "q") if free != True else [vc.real(tag + "q%d" % i, mag=2) for i in range(1, 5)]
        if free == True:  # noqa: E712
            vc.assume(vc.or_(*[vc.not_(x == 0) for x in q]))
        kw.update(dict(zip(("q1", "q2", "q3", "q4"), q)))
    for f in fs:
        if f in kw:
            continue
        if f == "v" and free:
            kw[f] = vc.real(tag + f, mag=200)
        elif f == "v":
            kw[f] = vc.real(tag + f, pos=True, mag=200)
        elif f == "roll" and any_roll:
            if vc.symbolic:
                kw[f] = vc.real(tag + f)
                vc.assume(vc.not_(vc.cos(kw[f]) == 0))
            else:
                side = vc.choice(tag + "bank", ("usual", "knife edge", "inverted"))
                kw[f] = vc.real(tag + f, **{"usual": {"lo": -1.5, "hi": 1.5}, "knife edge": {"lo": 1.5, "hi": 1.5695}, "inverted": {"lo": 1.6, "hi": 4}}[side]) * vc.choice(tag + "to", (1, -1))
        elif f == "roll":
            kw[f] = vc.real(tag + f, lo=vc_q(vc, -3, 2), hi=vc_q(vc, 3, 2))
            if vc.symbolic:
                vc.assume(vc.cos(kw[f]) > 0)
        elif f in ("wx", "wy", "wz"):
            kw[f] = vc.real(tag + f, mag=0.05)
        elif f in ("heading", "theta", "gamma"):
            kw[f] = vc.real(tag + f, mag=3)
        else:
            kw[f] = vc.real(tag + f, mag=100)
    return kw


def vc_q(vc, a, b):
    return vc.q(a, b)


def make(vc, mod, name, tag="", nm="e", any_roll=False, free=False, **opts):
    """entity in an arbitrary state"""
    c = cls_of(vc, mod, name)
    return c(name=nm, **init_values(vc, mod, name, tag, any_roll=any_roll, free=free), **opts)


class Rec:
    """stands for any dynamics: records what it receives, returns arbitrary results"""

    def __init__(self, vc, n):
        self.vc, self.n = vc, n
        self.calls = []
        self.out = []

    def step(self, step_size, state, control):
        self.calls.append((step_size, state, control))
        k = len(self.calls)
        a, b = self.vc.vec("dyn_state%d_" % k, self.n), self.vc.vec("dyn_dot%d_" % k, self.n)
        self.out.append((a, b))
        return a, b


def bro(vc, x, n):
    """limit as a list of n elements"""
    e = vc.els(x)
    return e * n if len(e) == 1 else e


def exact(kind):
    """tolerance for commands: those given in double precision are passed on as they are"""
    return 1e-6 if kind in ("list", "jax") else 1e-12


def action_of(vc, e, kind, n, default=None):
    """an action of the given kind and the command it stands for (default: the configured default command)"""
    f32 = vc.np.float32
    default = vc.els(vc.copy(e.control_default if default is None else default))
    if kind == "none":
        return None, default
    if kind == "jax":
        a = vc.vec("u", n, mag=2)
        return vc.jarr(a), vc.els(vc.copy(a))
    if kind == "list":
        vals = [vc.real("u%d" % i, mag=2) for i in range(n)]
        return list(vals), vc.els(vc.np.array(vals, dtype=f32))
    if kind == "ints":
        a = vc.ints("u", n)
        return a, vc.els(vc.copy(a))
    if kind == "array":
        a = vc.vec("u", n, mag=2)
        return a, vc.els(vc.copy(a))
    # dict over an arbitrary subset of the published names
    names = vc.subset("named", list(e.control_map))
    act = {k: vc.real("u_" + k, mag=2) for k in names}
    u = default
    for k in names:
        u[e.control_map[k]] = act[k]
    return act, u


def test_entity(vc, n, m, dim_state=None, **kw):
    """an arbitrary user entity on BaseEntity (or BaseRotationEntity) with state dimension m and command dimension n"""
    bm = getattr(vc.mod(kw.pop("mod", "base_models")), kw.pop("base", "BaseEntity"))
    init = kw.pop("init")

    class Ent(bm):
        def _build_state(self):
            return vc.copy(init)
    for a in sorted(bm.__abstractmethods__ - {"_build_state"}):
        setattr(Ent, a, property(lambda self: None))
    Ent.__abstractmethods__ = frozenset()
    return Ent(name="t", **kw)


def cfg(vc, mod, name, tag=""):
    """arbitrary physical configuration of an entity class: mass, mean motion, inertia, damping where it has them"""
    c = real_class(mod, name)
    ps = inspect.signature(c.__init__).parameters
    kw = {}
    if "m" in ps:
        kw["m"] = vc.real(tag + "m", pos=True, mag=20)
    if "n" in ps:
        kw["n"] = vc.real(tag + "n", mag=0.01)
    if "damping" in ps:
        kw["damping"] = vc.real(tag + "damping", lo=0, mag=1)
    if "inertia" in ps:
        kw["inertia"] = vc.real(tag + "inertia", pos=True, mag=1)
    if "inertia_matrix" in ps:
        d = [vc.real(tag + "I%d" % i, pos=True, mag=1) for i in range(3)]
        kw["inertia_matrix"] = vc.np.array([[d[0], 0, 0], [0, d[1], 0], [0, 0, d[2]]], dtype=vc.np.float64)
    return kw


def principal(kw):
    """principal inertias of a configuration, per axis (None where not modelled)"""
    if "inertia_matrix" in kw:
        return [kw["inertia_matrix"][i, i] for i in range(3)]
    if "inertia" in kw:
        return [None, None, kw["inertia"]]
    return [None] * 3


@contextlib.contextmanager
def configured(vc, **given):
    """the entities and dynamics built inside get these limits, rate limits or wrap centers instead of their own"""
    bm = vc.mod("base_models")
    saved = []
    for name in ("BaseDynamics", "BaseODESolverDynamics", "BaseEntity"):
        c = getattr(bm, name)
        orig = c.__init__
        sig = inspect.signature(orig)
        mine = {k: v for k, v in given.items() if k in sig.parameters}
        if not mine:
            continue

        def init(self, *a, _orig=orig, _sig=sig, _mine=mine, **k):
            b = _sig.bind(self, *a, **k)
            b.arguments.update(_mine)
            return _orig(*b.args, **b.kwargs)
        saved.append((c, c.__dict__.get("__init__")))
        c.__init__ = init
    try:
        yield
    finally:
        for c, o in saved:
            if o is None:
                del c.__init__
            else:
                c.__init__ = o


def unlimited(vc, **more):
    """no state, rate or actuator limits (those are C01, C04, C06)"""
    lo, hi = -vc.inf, vc.inf
    return configured(vc, state_min=lo, state_max=hi, state_dot_min=lo, state_dot_max=hi, control_min=lo, control_max=hi, **more)


def command_of(vc, e, action):
    """the command vector that reaches the dynamics for an action"""
    rec, dyn = Rec(vc, len(e.state)), e.dynamics
    s = e.state
    e.dynamics = rec
    e.step(1, action)
    e.dynamics = dyn
    e.state = s
    return rec.calls[0][2]


def deriv(vc, e, control, t=0):
    return e.dynamics.compute_state_dot(t, e.state, control)


def at(vc, e, vec):
    """the entity's accessors applied to another state-shaped vector (they are linear for positions, velocities and rates)"""
    s = e.state
    e.state = vc.arr(vc.els(vec))
    out = Reads(e)
    e.state = s
    return out


class Reads:
    NAMES = ("x", "y", "z", "x_dot", "y_dot", "z_dot", "theta", "heading", "gamma", "roll", "v", "wx", "wy", "wz", "q1", "q2", "q3", "q4")

    def __init__(self, e):
        rot2d = not hasattr(type(e), "_q_stored") and hasattr(e, "theta")
        for k in self.NAMES:
            if rot2d and k[0] == "q":
                continue
            try:
                if hasattr(type(e), k):
                    self.__dict__[k] = getattr(e, k)
            except NotImplementedError:
                pass

    def items(self):
        return self.__dict__.items()


def has(mod, name, attr):
    return hasattr(real_class(mod, name), attr)


VEHICLES = ("cwh.", "dubins", "integrators")


def vehicles():
    return [(m, n) for m, n in entities() if n != "SunEntity"]


def spacecraft():
    return [(m, n) for m, n in entities() if m.startswith("cwh.") and n != "SunEntity"]


METHODS = ("RK45", "Euler", "RK45_JAX")


def raw_dynamics(vc, base, n, raw=None, **kw):
    """a user dynamics on BaseODESolverDynamics whose model derivative is `raw(t, state, control)`"""
    b = getattr(vc.mod("base_models"), base)

    class Dyn(b):
        def _compute_state_dot(self, t, state, control):
            return raw(self, t, state, control)
    return Dyn(**kw)


def stepped_dynamics(vc, out, **kw):
    """a user dynamics on BaseDynamics whose transition returns `out` = (state, derivative)"""
    class Dyn(vc.mod("base_models").BaseDynamics):
        def _step(self, step_size, state, control):
            return out
    return Dyn(**kw)


def jvec(vc, v, jax):
    """the vector as the array type of the chosen backend"""
    if not jax or vc.symbolic:
        return v
    import jax.numpy as jnp
    return jnp.asarray(v)


def duration(vc, mag=2, zero=False):
    """any positive step length (zero: or none at all); the concrete runs take one in eleven between 5 s and 300 s, one below 0.01 s"""
    if zero and vc.choice("step size", ("positive",) * 9 + ("zero",) if not vc.symbolic else ("positive", "zero")) == "zero":
        return 0
    if vc.symbolic:
        return vc.real("h", pos=True, mag=mag)
    k = vc.choice("long step", ("no",) * 9 + ("long", "short"))
    return vc.real("h", lo=5, hi=300) if k == "long" else vc.real("h", lo=1e-6, hi=0.01, log=True) if k == "short" else vc.real("h", lo=0.01, hi=5)


def earlier(vc, same, other=None, label="earlier step"):
    """the step under contract is the first, or follows one of the same object (same) with other values, or one of another object
    with another configuration (other)"""
    k = vc.choice(label, ("none", "same object") + (("other object",) if other else ()))
    if k != "none":
        (same if k == "same object" else other)()
        del vc.ghost[:]


def flat(vc, x, depth=0, seen=None):
    """structure of plain data, arrays as lists of elements; objects by their attributes"""
    import numpy
    seen = seen or set()
    if isinstance(x, numpy.ndarray):
        return ("array", ("generic",) if type(x).__name__ == "VArr" else x.shape, list(vc.els(x)))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [flat(vc, y, depth + 1, seen) for y in x])
    if isinstance(x, dict):
        return ("dict", [(k, flat(vc, v, depth + 1, seen)) for k, v in x.items()])
    if isinstance(x, (set, frozenset)):
        return ("list", [flat(vc, y, depth + 1, seen) for y in sorted(x, key=repr)])
    if isinstance(x, (collections.deque, collections.UserList)):
        return ("list", [flat(vc, y, depth + 1, seen) for y in x])
    if isinstance(x, (types.MappingProxyType, collections.UserDict, weakref.WeakKeyDictionary, weakref.WeakValueDictionary)):
        return ("dict", [(id(k) if isinstance(x, weakref.WeakKeyDictionary) else k, flat(vc, v, depth + 1, seen)) for k, v in x.items()])
    if isinstance(x, (weakref.WeakSet, weakref.ref)):
        return ("value", repr(x) if isinstance(x, weakref.ref) else len(x))
    if isinstance(x, (types.SimpleNamespace, threading.local)):
        return ("dict", [(k, flat(vc, v, depth + 1, seen)) for k, v in vars(x).items()])
    if type(x).__module__ in ("itertools", "random", "_random"):
        return ("value", repr(x.getstate()) if hasattr(x, "getstate") else repr(x))
    if x is None or isinstance(x, (str, bytes, bool, int, float)) or _symnum(x) or isinstance(x, numpy.generic):
        return ("value", x)
    if hasattr(type(x), "cache_info"):
        return ("value", repr(x.cache_info()))
    if type(x).__module__.startswith(PKG) and hasattr(x, "__dict__") and id(x) not in seen:
        return ("dict", [("id", ("object", type(x).__name__, id(x)))] + [(k, flat(vc, v, depth + 1, seen | {id(x)})) for k, v in vars(x).items()])
    return ("object", type(x).__name__, id(x))


def funstate(vc, f):
    """what a function object keeps between calls: defaults, closure cells, attributes, a memo table"""
    out = [flat(vc, f)] if hasattr(type(f), "cache_info") else []
    for _ in range(6):
        if not hasattr(f, "__wrapped__"):
            break
        f = f.__wrapped__
    if not inspect.isfunction(f):
        return out
    out += [flat(vc, d) for d in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()) if isinstance(d, (list, dict)) or type(d).__name__ in ("ndarray", "SArr") or hasattr(d, "__dict__")]
    for c in f.__closure__ or ():
        try:
            v = c.cell_contents
        except ValueError:
            continue
        if not inspect.isclass(v) and not inspect.isfunction(v):
            out.append(flat(vc, v))
    return out + [flat(vc, v) for k, v in vars(f).items() if not k.startswith("__")]


def _symnum(x):
    return type(x).__name__ in ("SReal", "SInt", "SBool")


def same_flat(vc, a, b):
    """identical structure and values"""
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == "array":
        return len(a[2]) == len(b[2]) and a[1] == b[1] and (vc.same(a[2], b[2]) if a[2] else True)
    if a[0] in ("list", "tuple"):
        return len(a[1]) == len(b[1]) and vc.and_(*[same_flat(vc, x, y) for x, y in zip(a[1], b[1])])
    if a[0] == "dict":
        return [k for k, _ in a[1]] == [k for k, _ in b[1]] and vc.and_(*[same_flat(vc, x[1], y[1]) for x, y in zip(a[1], b[1])])
    if a[0] == "value":
        x, y = a[1], b[1]
        if _symnum(x) or _symnum(y):
            return vc.same(x, y) if not isinstance(x, (str, type(None))) and not isinstance(y, (str, type(None))) else False
        return type(x) is type(y) and (x == y or (x != x and y != y))
    return a == b


STATEFUL = ("builtins", "collections", "weakref", "types", "itertools", "random", "threading", "_thread", "numpy", "vf.sym", "vf.npshim")
OWN = ("_state", "state", "state_dot", "trajectory", "trajectory_t")


def frame(vc, e):
    """everything of the entity and its dynamics but state, reported derivative and trajectory samples; package globals and class attributes"""
    out = {}
    for pre, o in (("entity.", e), ("dynamics.", e.dynamics)):
        for k, v in vars(o).items():
            if k not in OWN:
                out[pre + k] = ("object", type(v).__name__, id(v)) if v is e.dynamics else flat(vc, v)
    import sys
    mods = [m for n, m in (vc.U.mods if vc.symbolic else sys.modules).items() if n.startswith(PKG) and m is not None]
    for m in mods:
        for k, v in list(vars(m).items()):
            if not k.startswith("__") and not inspect.isroutine(v) and not inspect.isclass(v) and not inspect.ismodule(v) and (type(v).__module__ in STATEFUL or type(v).__module__.startswith(PKG) or _symnum(v)):
                out[m.__name__ + "." + k] = flat(vc, v)
            if getattr(v, "__module__", None) == m.__name__ and not inspect.isclass(v) and (inspect.isfunction(v) or hasattr(type(v), "cache_info")):
                out[m.__name__ + "." + k + "()"] = ("list", funstate(vc, v))
            if inspect.isclass(v) and v.__module__ == m.__name__:
                for k2, v2 in list(vars(v).items()):
                    if not k2.startswith("__") and not k2.startswith("_abc") and not isinstance(v2, (property, classmethod, staticmethod)) and not inspect.isroutine(v2) and (type(v2).__module__ in STATEFUL or _symnum(v2)) and k2 not in ("model_fields", "model_config") and "pydantic" not in k2:
                        out["%s.%s.%s" % (m.__name__, k, k2)] = flat(vc, v2)
                    for f in (v2.fget, v2.fset) if isinstance(v2, property) else (getattr(v2, "__func__", v2),):
                        if inspect.isfunction(f) or hasattr(type(f), "cache_info"):
                            out["%s.%s.%s()%s" % (m.__name__, k, k2, getattr(f, "__name__", ""))] = ("list", funstate(vc, f))
    return out


def frame_same(vc, a, b):
    return sorted(a) == sorted(b) and vc.and_(*[same_flat(vc, a[k], b[k]) for k in a])
