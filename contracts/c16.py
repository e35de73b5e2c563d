"""C16 thrust acts along the reported attitude with unchanged magnitude

Postcondition of command -> derivative: the thrust-induced acceleration is the orientation the entity reports applied to the thrust vector, over
the mass, for every attitude, mass, state and command; lemmas on its magnitude; contracts of the quaternion helpers it is built from."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["unit quaternion (the constructor's default and every rotation is one); the six-degree-of-freedom thrust scales with the squared norm of a non-unit quaternion",
          "limits are C01, C04, C06"]
T = ("thrust_x", "thrust_y", "thrust_z")


def ships():
    return [(m, n, f) for m, n in cm.spacecraft() for f in (("body", "hill") if n.startswith("SixDOF") else ("body",))]


def build(vc, mod, name, frame, tag="", **kw):
    if frame == "hill":
        kw["body_frame_thrust"] = False
    elif name.startswith("SixDOF") and vc.choice("frame given", (False, True)):
        kw["body_frame_thrust"] = True
    with cm.unlimited(vc):
        e = cm.make(vc, mod, name, tag, **kw)
    return e


def accel(vc, e, u, u0):
    """acceleration due to the command, in the Hill frame"""
    d = cm.at(vc, e, cm.deriv(vc, e, u) - cm.deriv(vc, e, u0))
    return [d.x_dot, d.y_dot, d.z_dot]


@contract("along_attitude", ships, time=60, samples=120)
def along(vc, mod, name, frame):
    kw = cm.cfg(vc, mod, name)
    e = build(vc, mod, name, frame, **kw)
    if frame == "hill" and vc.choice("quaternion", ("unit", "any length")) == "any length":
        s = e.state
        s[3:7] = vc.vec("qq", 4, mag=1)
        e.state = s
    u = vc.vec("u", len(e.control_default), mag=2)
    f = [0, 0, 0]
    u0 = vc.copy(u)
    for i, k in enumerate(T):
        if k in e.control_map:
            f[i] = u[e.control_map[k]]
            u0[e.control_map[k]] = 0
    a = accel(vc, e, u, u0)
    m = kw["m"]
    want = f if frame == "hill" else vc.els(e.orientation.apply(vc.arr(f)))
    for x, w in zip(a, want):
        vc.prove("acceleration is the thrust along the reported attitude over the mass", vc.eq(x, w / m, tol=1e-4))
    vc.prove("magnitude does not depend on attitude", vc.eq(m * m * (a[0] * a[0] + a[1] * a[1] + a[2] * a[2]), f[0] * f[0] + f[1] * f[1] + f[2] * f[2], tol=1e-3))
    d0 = cm.at(vc, e, cm.deriv(vc, e, u) - cm.deriv(vc, e, u0))
    for k, v in d0.items():
        if k not in ("x_dot", "y_dot", "z_dot"):
            vc.prove("thrust drives nothing else", vc.eq(v, 0, tol=1e-5))


@contract("linear", ships, time=60, samples=60)
def linear(vc, mod, name, frame):
    """superposition: the acceleration of a combined thrust is the sum of the separate ones"""
    kw = cm.cfg(vc, mod, name)
    e = build(vc, mod, name, frame, **kw)
    n = len(e.control_default)
    u, v, z = vc.vec("u", n, mag=2), vc.vec("v", n, mag=2), vc.np.zeros(n)
    a, b, c = accel(vc, e, u, z), accel(vc, e, v, z), accel(vc, e, u + v, z)
    vc.prove("thrusts superpose", vc.and_(*[vc.eq(x + y, w, tol=1e-4) for x, y, w in zip(a, b, c)]))


@contract("same_attitude", [("cwh.rotational_model", "CWHRotation2dSpacecraft"), ("cwh.sixdof_model", "SixDOFSpacecraft")], time=60, samples=80)
def same_attitude(vc, mod, name):
    """position and velocity play no part, attitude alone does"""
    kw = cm.cfg(vc, mod, name)
    ini = cm.init_values(vc, mod, name)
    c = cm.cls_of(vc, mod, name)
    with cm.unlimited(vc):
        e = c(name="a", **ini, **kw)
        g = c(name="b", **{**cm.init_values(vc, mod, name, "b"), **{k: v for k, v in ini.items() if k in ("theta", "q1", "q2", "q3", "q4")}}, **kw)
    n = len(e.control_default)
    u, z = vc.vec("u", n, mag=2), vc.np.zeros(n)
    vc.prove("equal attitudes accelerate equally", vc.and_(*[vc.eq(x, y, tol=1e-4) for x, y in zip(accel(vc, e, u, z), accel(vc, g, u, z))]))


@contract("helpers", None, time=60, samples=120)
def helpers(vc):
    """contracts of SixDOFDynamics' quaternion helpers, proved of their bodies"""
    d = vc.mod("cwh").SixDOFDynamics()
    q = vc.arr(vc.quat("q"))
    x = vc.vec("x", 3, mag=2)
    import importlib
    R = vc.mod("cwh.sixdof_model").Rotation if vc.symbolic else importlib.import_module("scipy.spatial.transform").Rotation
    r = vc.els(d.apply_quat(x, q))
    vc.prove("apply_quat is the rotation of that quaternion", vc.eq(r, vc.els(R.from_quat(q).apply(x)), tol=1e-6))
    vc.prove("apply_quat preserves length", vc.eq(r[0] * r[0] + r[1] * r[1] + r[2] * r[2], x[0] * x[0] + x[1] * x[1] + x[2] * x[2], tol=1e-5))
    a, b = vc.vec("a", 4, mag=2), vc.vec("b", 4, mag=2)
    ab = vc.els(d.hamilton_product(a, b))
    sq = lambda v: v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]   # noqa: E731
    vc.prove("the Hamilton product multiplies norms", vc.eq(sq(ab), sq(vc.els(a)) * sq(vc.els(b)), tol=1e-6))
    c = vc.vec("c", 4, mag=2)
    vc.prove("the Hamilton product is associative", vc.eq(vc.els(d.hamilton_product(d.hamilton_product(a, b), c)), vc.els(d.hamilton_product(a, d.hamilton_product(b, c))), tol=1e-5))
    one = vc.arr([1, 0, 0, 0])
    vc.prove("scalar first", vc.and_(vc.eq(d.hamilton_product(one, a), a), vc.eq(d.hamilton_product(a, one), a)))
