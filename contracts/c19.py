"""C19 Dubins velocity, attitude and motion agree

Postconditions relating the aircraft's accessors and the derivative of its dynamics, for every state and command."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["heading rate: speed > 0, cos(roll) not zero (tangent defined); limits are C01, C04, C06; single-precision rounding of the accessors is not modelled"]
M = "dubins"
D2, D3 = "Dubins2dAircraft", "Dubins3dAircraft"


def plane(vc, name, how="constructed", g=None, any_roll=True, free=False):
    with cm.unlimited(vc):
        e = cm.make(vc, M, name, integration_method="Euler", any_roll=any_roll, free=free)
        if g is not None:
            e.dynamics = vc.mod(M).Dubins3dDynamics(g=g, integration_method="Euler")
    if how == "assigned":
        for k, v in cm.init_values(vc, M, name, "s", any_roll=any_roll, free=free).items():
            if (k, name) != ("z", D2):
                setattr(e, k, v)
    return e


def derivs(vc, e, u):
    return cm.at(vc, e, cm.deriv(vc, e, u))


BOTH = [(n, h) for n in (D2, D3) for h in ("constructed", "assigned")]


def spec_velocity(vc, e):
    c, s = vc.cos(e.heading), vc.sin(e.heading)
    return [e.v * c * vc.cos(e.gamma), e.v * s * vc.cos(e.gamma), -e.v * vc.sin(e.gamma)]


@contract("velocity", BOTH, time=60, samples=120)
def velocity(vc, name, how):
    e = plane(vc, name, how, free="unit")
    vc.assume_defined("the model derivative is defined")
    d = derivs(vc, e, vc.vec("u", len(e.control_default), mag=5))
    v = vc.els(e.velocity)
    vc.prove("velocity is the position derivative", vc.and_(vc.eq(v[0], d.x, tol=1e-5), vc.eq(v[1], d.y, tol=1e-5), vc.eq(v[2], d.z, tol=1e-5) if name == D3 else vc.eq(v[2], 0)))
    vc.prove("velocity follows heading and flight-path angle", vc.eq(v, spec_velocity(vc, e), tol=1e-5, scale=None if vc.symbolic else e.v))
    vc.prove("magnitude is the speed", vc.eq(v[0] * v[0] + v[1] * v[1] + v[2] * v[2], e.v * e.v, tol=1e-5))
    nose = vc.els(e.orientation.apply(vc.arr([1, 0, 0])))
    for a, b in zip(v, nose):
        vc.prove("velocity points along the nose", vc.eq(a, e.v * b, tol=1e-5, scale=None if vc.symbolic else e.v))
    up = vc.els(e.orientation.apply(vc.arr([0, 0, 1])))
    if name == D3:
        vc.prove("orientation rolls by the reported roll", vc.and_(vc.eq(up[2], vc.cos(e.gamma) * vc.cos(e.roll), tol=1e-5),
                                                                  vc.eq(vc.els(e.orientation.apply(vc.arr([0, 1, 0])))[2], vc.cos(e.gamma) * vc.sin(e.roll), tol=1e-5)))
    else:
        vc.prove("planar flight is level", vc.and_(vc.eq(up, [0, 0, 1]), vc.eq(e.gamma, 0), vc.eq(e.roll, 0), vc.eq(e.z, 0)))
    vc.prove("yaw and pitch are heading and flight-path angle", vc.and_(vc.eq(e.yaw, e.heading), vc.eq(e.pitch, e.gamma)))


@contract("rates", BOTH, time=60, samples=120)
def rates(vc, name, how):
    g = vc.real("g", pos=True, mag=40) if name == D3 and vc.choice("gravity", ("given", "default")) == "given" else None
    e = plane(vc, name, how, g)
    cmd = {k: vc.real("u_" + k, mag=5) for k in sorted(e.control_map)}
    u = vc.np.zeros(len(e.control_default))
    for k, v in cmd.items():
        u[e.control_map[k]] = v
    d = derivs(vc, e, u)
    g = vc.num("32.17") if g is None else g
    if name == D3:
        vc.prove("heading turns at g/v tan(roll)", vc.eq(d.heading, g / e.v * vc.tan(e.roll), tol=1e-5))
        vc.prove("flight-path angle changes at its commanded rate", vc.eq(d.gamma, cmd["gamma_rate"], tol=1e-6))
        vc.prove("roll changes at its commanded rate", vc.eq(d.roll, cmd["roll_rate"], tol=1e-6))
    else:
        vc.prove("heading turns at the commanded rate", vc.eq(d.heading, cmd["heading_rate"], tol=1e-6))
    vc.prove("speed changes at the commanded acceleration", vc.eq(d.v, cmd["acceleration"], tol=1e-6))
    z = derivs(vc, e, vc.np.zeros(len(u)))
    vc.prove("position derivative does not depend on the command", vc.and_(vc.eq(d.x, z.x), vc.eq(d.y, z.y), vc.eq(d.z, z.z) if name == D3 else True))


@contract("acceleration", BOTH, time=60, samples=80)
def acceleration(vc, name, how):
    e = plane(vc, name, how, free="unit")
    sd = vc.vec("sd", len(e.state), mag=5)
    e.state_dot = sd
    a = vc.els(e.acceleration)
    vd = cm.at(vc, e, sd).v
    n = vc.els(e.orientation.apply(vc.arr([1, 0, 0])))
    for x, y in zip(a, n):
        vc.prove("acceleration is the speed derivative along the velocity", vc.eq(x, vd * y, tol=1e-5, scale=None if vc.symbolic else vd))
    vc.prove("acceleration has three components", len(a) == 3)


@contract("stepped", [(D2,), (D3,)], time=60, samples=60)
def stepped(vc, name):
    """after a step: the reported acceleration is the commanded one along the new velocity"""
    e = plane(vc, name, any_roll=False)
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    cmd = {k: vc.real("u_" + k, mag=0.3) for k in sorted(e.control_map)}
    h = vc.real("h", lo=0, hi=2) if not vc.symbolic else cm.duration(vc)
    want = {k: getattr(e, k) for k in ("x", "y", "z", "heading", "gamma", "roll", "v")}
    vel = vc.els(e.velocity)
    hr = cmd["heading_rate"] if name == D2 else vc.num("32.17") / e.v * vc.tan(e.roll)
    e.step(h, dict(cmd))
    if not vc.symbolic:
        vc.assume(e.v > 0.1)
    else:
        vc.assume(e.v > 0)
    for i, k in enumerate("xyz"):
        if (k, name) != ("z", D2):
            vc.prove("an Euler step moves along the velocity", vc.eq(getattr(e, k), want[k] + h * vel[i], tol=1e-5))
    vc.prove("speed gained", vc.eq(e.v, want["v"] + h * cmd["acceleration"], tol=1e-5))
    k = (e.heading - (want["heading"] + h * hr)) / (2 * vc.pi)
    if abs(1 if vc.symbolic else float(hr)) < 1e4:
        vc.prove("heading gained, up to whole turns", vc.is_int(k))
    a = vc.els(e.acceleration)
    n = vc.els(e.orientation.apply(vc.arr([1, 0, 0])))
    vc.prove("reported acceleration is the commanded one along the velocity", vc.and_(*[vc.eq(x, cmd["acceleration"] * y, tol=1e-5) for x, y in zip(a, n)]))


@contract("limits", [(D2,), (D3,)], time=30, samples=30)
def limits(vc, name):
    """configured speed, angle and command ranges bound the quantity they name"""
    L = {}

    def rng(k, lo, hi):
        a, b = vc.real(k + "_min", lo=lo, hi=hi), vc.real(k + "_max", lo=lo, hi=hi)
        vc.assume(vc.lt(a, b))
        L[k] = (a, b)
        return {k + "_min": a, k + "_max": b}
    kw = {**rng("v", 100, 500), **rng("acceleration_control", -100, 100)}
    kw.update(rng("heading_rate_control", -1, 1) if name == D2 else {**rng("gamma", -1, 1), **rng("roll", -1, 1), **rng("gamma_rate_control", -1, 1), **rng("roll_rate_control", -1, 1)})
    e = cm.cls_of(vc, M, name)(name="e", **cm.init_values(vc, M, name), **kw)
    n = len(e.state)
    top, bot = cm.at(vc, e, vc.arr(cm.bro(vc, e.dynamics.state_max, n))), cm.at(vc, e, vc.arr(cm.bro(vc, e.dynamics.state_min, n)))
    for k in ("v",) + (("gamma", "roll") if name == D3 else ()):
        vc.prove("configured range bounds its own quantity", vc.and_(vc.eq(getattr(bot, k), L[k][0], tol=1e-6), vc.eq(getattr(top, k), L[k][1], tol=1e-6)))
    for k, i in e.control_map.items():
        lo, hi = L[k + "_control"]
        vc.prove("configured command range bounds its own actuator", vc.and_(vc.eq(vc.els(e.control_min)[i], lo, tol=1e-6), vc.eq(vc.els(e.control_max)[i], hi, tol=1e-6)))
    h = vc.choice("unlimited", ("heading", "x", "y"))
    vc.prove("position and heading are not limited", vc.and_(vc.isinf(getattr(top, h)), vc.isinf(getattr(bot, h))))
