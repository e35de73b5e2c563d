"""C15 all spacecraft models obey the same Clohessy-Wiltshire motion

Postcondition of the dynamics' derivative read through the entity's own accessors, for every state, force, mass and mean motion; the conserved
quantities are lemmas over it (their time derivative vanishes identically)."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["unit quaternion, positive mass and inertia, mean motion of any sign; state, rate and actuator limits are C01, C04 and C06",
          "conservation: the time derivative along the model is identically zero (the integration itself is C07)"]


def ship(vc, mod, name, tag="", **kw):
    with cm.unlimited(vc):
        e = cm.make(vc, mod, name, tag, **kw)
    return e


def force(vc, e, u, hill=False):
    """Hill-frame force a command stands for: the thrusts along the reported body axes"""
    f = [0, 0, 0]
    for i, a in enumerate(("thrust_x", "thrust_y", "thrust_z")):
        if a in e.control_map:
            f[i] = u[e.control_map[a]]
    return f if hill else vc.els(e.orientation.apply(vc.arr(f)))


def cwh(vc, e, F, m, n):
    """the stated equations"""
    return {"x": e.x_dot, "y": e.y_dot, "z": e.z_dot,
            "x_dot": 3 * n * n * e.x + 2 * n * e.y_dot + F[0] / m, "y_dot": -2 * n * e.x_dot + F[1] / m, "z_dot": -n * n * e.z + F[2] / m}


def scale(vc, e):
    return None if vc.symbolic else max([1.0] + [abs(float(v)) for v in e.state])


@contract("derivative", lambda: [(m, n, f) for m, n in cm.spacecraft() for f in (("body", "hill") if n.startswith("SixDOF") else ("body",))], time=60, samples=120)
def derivative(vc, mod, name, frame):
    kw = cm.cfg(vc, mod, name)
    opt = {"body_frame_thrust": False} if frame == "hill" else {}
    e = ship(vc, mod, name, **kw, **opt)
    u = vc.vec("u", len(e.control_default), mag=2)
    got = cm.at(vc, e, cm.deriv(vc, e, u, vc.real("t", lo=0, mag=100)))
    want = cwh(vc, e, force(vc, e, u, frame == "hill"), kw["m"], kw["n"])
    for k, w in want.items():
        vc.prove("Clohessy-Wiltshire " + k, vc.eq(getattr(got, k), w, tol=2e-6, scale=None))
    if name.endswith("2dSpacecraft"):
        vc.prove("the planar model stays in the plane", vc.and_(vc.eq(e.z, 0), vc.eq(e.z_dot, 0), vc.eq(got.z_dot, 0)))


@contract("reported", lambda: cm.spacecraft(), time=60, samples=60)
def reported(vc, mod, name):
    """the derivative a step reports, at the state the step arrives at"""
    kw = cm.cfg(vc, mod, name)
    e = ship(vc, mod, name, **kw, integration_method="Euler")
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    u = vc.vec("u", len(e.control_default), mag=1)
    s0 = vc.copy(e.state)
    h = cm.duration(vc)
    want = {k: getattr(e, k) for k in ("x", "y", "x_dot", "y_dot")}
    d = cwh(vc, e, force(vc, e, u), kw["m"], kw["n"])
    e.step(h, u)
    for k, w in want.items():
        vc.prove("an Euler step moves along the Clohessy-Wiltshire derivative", vc.eq(getattr(e, k), w + h * d[k], tol=1e-5))
    vc.prove("state has the same size", len(vc.els(s0)) == len(vc.els(e.state)))


@contract("conserved", lambda: cm.spacecraft(), time=60, samples=100)
def conserved(vc, mod, name):
    kw = cm.cfg(vc, mod, name)
    e = ship(vc, mod, name, **kw)
    d = cm.at(vc, e, cm.deriv(vc, e, vc.np.zeros(len(e.control_default))))
    n = kw["n"]
    terms = [e.x_dot * d.x_dot, e.y_dot * d.y_dot, e.z_dot * d.z_dot, -3 * n * n * e.x * d.x, n * n * e.z * d.z]
    s = None if vc.symbolic else sum(abs(float(t)) for t in terms)
    vc.prove("Hill energy is conserved", vc.eq(sum(terms[1:], terms[0]), 0, tol=1e-5, scale=s))
    s = None if vc.symbolic else abs(float(2 * n * d.x)) + abs(float(d.y_dot))
    vc.prove("y' + 2 n x is conserved", vc.eq(d.y_dot + 2 * n * d.x, 0, tol=1e-5, scale=s))


@contract("agree", lambda: [(a, b) for a in cm.spacecraft() for b in cm.spacecraft() if a < b], time=60, samples=60)
def agree(vc, a, b):
    """two models in the same place under the same Hill-frame force accelerate equally"""
    m, n = vc.real("m", pos=True, mag=20), vc.real("n", mag=0.01)
    pv = {k: vc.real(k, mag=50) for k in ("x", "y", "z", "x_dot", "y_dot", "z_dot")}
    planar = any(c[1].endswith("2dSpacecraft") for c in (a, b))
    out = []
    F = vc.vec("F", 3, mag=2)
    if planar:
        pv["z"] = pv["z_dot"] = 0
        F[2] = 0
    for mod, name in (a, b):
        with cm.unlimited(vc):
            e = cm.cls_of(vc, mod, name)(name="e", m=m, n=n, **{k: v for k, v in pv.items() if k in cm.fields(mod, name)})
        u = vc.np.zeros(len(e.control_default))
        for i, k in enumerate(("thrust_x", "thrust_y", "thrust_z")):
            if k in e.control_map:
                u[e.control_map[k]] = F[i]
        out.append(cm.at(vc, e, cm.deriv(vc, e, u)))
    for k in ("x", "y", "z", "x_dot", "y_dot", "z_dot"):
        vc.prove("models agree", vc.eq(getattr(out[0], k), getattr(out[1], k), tol=2e-6))


@contract("defaults", lambda: cm.spacecraft(), time=60, samples=40)
def defaults(vc, mod, name):
    """documented default mass (12 kg) and mean motion (0.001027 rad/s)"""
    ini = cm.init_values(vc, mod, name)
    c = cm.cls_of(vc, mod, name)
    a, b = c(name="a", **ini), c(name="b", m=12, n=vc.num("0.001027"), **ini)
    u = vc.vec("u", len(a.control_default), mag=2)
    vc.prove("documented defaults", vc.eq(cm.deriv(vc, a, u), cm.deriv(vc, b, u), tol=1e-6))


@contract("matrices", None, time=60, samples=60)
def matrices(vc):
    """generate_cwh_matrices: the planar system is the restriction of the spatial one"""
    m, n = vc.real("m", pos=True, mag=20), vc.real("n", mag=0.01)
    g = vc.mod("cwh").generate_cwh_matrices
    A, B = g(m, n, "3d")
    s, F = vc.vec("s", 6, mag=50), vc.vec("F", 3, mag=2)
    got = vc.els(A @ s + B @ F)
    want = [s[3], s[4], s[5], 3 * n * n * s[0] + 2 * n * s[4] + F[0] / m, -2 * n * s[3] + F[1] / m, -n * n * s[2] + F[2] / m]
    vc.prove("matrices of the spatial model", vc.eq(got, want, tol=1e-9))
    A2, B2 = g(m, n, "2d") if vc.choice("mode given", (True, False)) else g(m, n)
    s2 = vc.arr([s[0], s[1], s[3], s[4]])
    got2 = vc.els(A2 @ s2 + B2 @ F[0:2])
    vc.prove("matrices of the planar model", vc.eq(got2, [want[i] for i in (0, 1, 3, 4)], tol=1e-9))
