"""C17 attitude kinematics and rigid-body rotation are physically consistent

Postconditions of the models' derivative for every attitude, rate, inertia and torque; conservation laws are lemmas over it."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["inertia about principal axes (the model uses the diagonal of the inertia matrix), positive; angular-rate limits are C04/C18",
          "conservation: the time derivative along the model is identically zero (the integration itself is C07)"]
MOD, NAME = "cwh.sixdof_model", "SixDOFSpacecraft"


def ship(vc, mod=MOD, name=NAME):
    kw = cm.cfg(vc, mod, name)
    opt = {"body_frame_thrust": vc.choice("body frame", (True, False))} if name == NAME else {}
    with cm.unlimited(vc):
        e = cm.make(vc, mod, name, **kw, **opt)
    return e, kw


def rotate(vc, q, v):
    """R(q) v for any quaternion (x, y, z, w), scaled by its squared norm: the specification's own rotation"""
    x, y, z, w = q
    return [(x * x - y * y - z * z + w * w) * v[0] + 2 * (x * y - z * w) * v[1] + 2 * (x * z + y * w) * v[2],
            2 * (x * y + z * w) * v[0] + (-x * x + y * y - z * z + w * w) * v[1] + 2 * (y * z - x * w) * v[2],
            2 * (x * z - y * w) * v[0] + 2 * (y * z + x * w) * v[1] + (-x * x - y * y + z * z + w * w) * v[2]]


def drotate(vc, q, p, v):
    """directional derivative of R(q) v along p (R is quadratic in q)"""
    x, y, z, w = q
    dx, dy, dz, dw = p
    dd = lambda a, da, b, db: a * db + da * b   # noqa: E731
    xx, yy, zz, ww = 2 * x * dx, 2 * y * dy, 2 * z * dz, 2 * w * dw
    xy, xz, yz = dd(x, dx, y, dy), dd(x, dx, z, dz), dd(y, dy, z, dz)
    xw, yw, zw = dd(x, dx, w, dw), dd(y, dy, w, dw), dd(z, dz, w, dw)
    return [(xx - yy - zz + ww) * v[0] + 2 * (xy - zw) * v[1] + 2 * (xz + yw) * v[2],
            2 * (xy + zw) * v[0] + (-xx + yy - zz + ww) * v[1] + 2 * (yz - xw) * v[2],
            2 * (xz - yw) * v[0] + 2 * (yz + xw) * v[1] + (-xx - yy + zz + ww) * v[2]]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


@contract("kinematics", None, time=60, samples=150)
def kinematics(vc):
    e, _ = ship(vc)
    if not vc.choice("unit", (True, False)):
        q = vc.vec("p", 4, mag=1)
        s = e.state
        s[3:7] = q
        e.state = s
    q = [e.q1, e.q2, e.q3, e.q4]
    u = vc.vec("u", len(e.control_default), mag=1)
    d = cm.at(vc, e, cm.deriv(vc, e, u))
    qd = [d.q1, d.q2, d.q3, d.q4]
    w = [e.wx, e.wy, e.wz]
    sc = None if vc.symbolic else sum(float(x) ** 2 for x in q) * max(abs(float(x)) for x in w)
    vc.prove("quaternion norm is constant", vc.eq(q[0] * qd[0] + q[1] * qd[1] + q[2] * qd[2] + q[3] * qd[3], 0, tol=1e-5, scale=sc))
    v = [vc.real("v%d" % i, mag=1) for i in range(3)]
    left = drotate(vc, q, qd, v)
    right = rotate(vc, q, cross(w, v))
    for x, y in zip(left, right):
        vc.prove("body-fixed vectors turn at the body angular velocity", vc.eq(x, y, tol=1e-4, scale=None if vc.symbolic else sc * max(abs(float(x)) for x in v)))


@contract("orientation", None, time=60, samples=80)
def orientation(vc):
    """the reported orientation is the rotation of the specification"""
    e, _ = ship(vc)
    v = vc.vec("v", 3, mag=2)
    vc.prove("reported orientation", vc.eq(vc.els(e.orientation.apply(v)), rotate(vc, [e.q1, e.q2, e.q3, e.q4], vc.els(v)), tol=1e-5))
    q = vc.els(e.quaternion)
    p = [e.q1, e.q2, e.q3, e.q4]
    same, opp = vc.eq(q, p, tol=1e-5), vc.eq(q, [-x for x in p], tol=1e-5)
    vc.prove("reported quaternion is the attitude", vc.or_(same, opp))


@contract("torque_free", None, time=60, samples=150)
def torque_free(vc):
    e, kw = ship(vc)
    In = cm.principal(kw)
    u = vc.vec("u", 6, mag=1)
    for k in ("moment_x", "moment_y", "moment_z"):
        u[e.control_map[k]] = 0
    d = cm.at(vc, e, cm.deriv(vc, e, u))
    w, a = [e.wx, e.wy, e.wz], [d.wx, d.wy, d.wz]
    t = [In[i] * w[i] * a[i] for i in range(3)]
    s = None if vc.symbolic else sum(abs(float(x)) for x in t)
    vc.prove("rotational energy is conserved", vc.eq(t[0] + t[1] + t[2], 0, tol=1e-5, scale=s))
    t = [In[i] * In[i] * w[i] * a[i] for i in range(3)]
    s = None if vc.symbolic else sum(abs(float(x)) for x in t)
    vc.prove("angular momentum magnitude is conserved", vc.eq(t[0] + t[1] + t[2], 0, tol=1e-5, scale=s))
    L = [In[i] * w[i] for i in range(3)]
    c = cross(w, L)
    for i in range(3):
        s = None if vc.symbolic else max(abs(float(x)) for x in [In[i] * a[i]] + [w[j] * L[k] for j in range(3) for k in range(3)])
        vc.prove("Euler's equations", vc.eq(In[i] * a[i] + c[i], 0, tol=1e-5, scale=s))


@contract("torque", [("x",), ("y",), ("z",)], time=60, samples=100)
def torque(vc, ax):
    e, kw = ship(vc)
    I_ = cm.principal(kw)[("x", "y", "z").index(ax)]
    u = vc.vec("u", 6, mag=1)
    u0 = vc.copy(u)
    k = e.control_map["moment_" + ax]
    u0[k] = 0
    a, b = cm.at(vc, e, cm.deriv(vc, e, u)), cm.at(vc, e, cm.deriv(vc, e, u0))
    for n, v in a.items():
        if n == "w" + ax:
            vc.prove("a torque adds torque over inertia", vc.eq(v, getattr(b, n) + u[k] / I_, tol=2e-5, scale=None))
        elif n[0] != "q":
            vc.prove("a torque adds nothing else", vc.eq(v, getattr(b, n), tol=1e-6))
    vc.prove("a torque does not change the attitude rate directly", vc.eq([a.q1, a.q2, a.q3, a.q4], [b.q1, b.q2, b.q3, b.q4], tol=1e-6))


@contract("planar", None, time=60, samples=100)
def planar(vc):
    mod, name = "cwh.rotational_model", "CWHRotation2dSpacecraft"
    e, kw = ship(vc, mod, name)
    u = vc.vec("u", 3, mag=1)
    d = cm.at(vc, e, cm.deriv(vc, e, u))
    vc.prove("angle derivative is the angular rate", vc.eq(d.theta, e.wz, tol=1e-6))
    vc.prove("angular acceleration is torque over inertia", vc.eq(d.wz, u[e.control_map["moment_z"]] / kw["inertia"], tol=1e-6))
    v = vc.els(e.orientation.apply(vc.arr([1, 0, 0])))
    vc.prove("reported orientation turns about z by the angle", vc.eq(v, [vc.cos(e.theta), vc.sin(e.theta), 0], tol=1e-6))
    vc.prove("only the z rate is modelled", vc.and_(vc.eq(e.wx, 0), vc.eq(e.wy, 0), vc.eq(d.wx, 0), vc.eq(d.wy, 0)))


@contract("configured", [("cwh.rotational_model", "CWHRotation2dSpacecraft"), (MOD, NAME)], time=60, samples=40)
def configured(vc, mod, name):
    """documented default inertia"""
    ini = cm.init_values(vc, mod, name)
    c = cm.cls_of(vc, mod, name)
    with cm.unlimited(vc):
        a, b = built(vc, name, c, ini)
    u = vc.vec("u", len(a.control_default), mag=1)
    vc.prove("default inertia", vc.eq(cm.deriv(vc, a, u), cm.deriv(vc, b, u), tol=1e-5))


def built(vc, name, c, ini):
    """by default, and with the documented inertia"""
    if name == NAME:
        I0 = vc.np.array([[vc.num("0.0573"), 0, 0], [0, vc.num("0.0573"), 0], [0, 0, vc.num("0.0573")]], dtype=vc.np.float64)
        return c(name="a", **ini), c(name="b", inertia_matrix=I0, **ini)
    return c(name="a", **ini), c(name="b", inertia=vc.num("0.0573"), **ini)
