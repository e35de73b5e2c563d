"""C03 each named actuator drives exactly its own axis

Postcondition relating entity.step (dictionary action -> command vector) and dynamics.compute_state_dot (command -> derivative):
derivative(command of {name: u}) - derivative(command of {}) is u times the unit derivative of the named quantity, for every
state, mass, inertia and mean motion."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["unit quaternion, diagonal (principal-axis) inertia, positive mass and inertia, any roll but a right angle, Dubins speed > 0"]
AX = {"x": 0, "y": 1, "z": 2}


@contract("map", lambda: cm.entities(), time=40, samples=3)
def control_map(vc, mod, name):
    e = cm.cls_of(vc, mod, name)(name="e")
    n = len(e.control_default)
    if e.control_map is None:
        return vc.prove("no actuator, no name", n == 0)
    vc.prove("actuator names address distinct components, one name per component", sorted(int(i) for i in e.control_map.values()) == list(range(n)))


def names():
    out = []
    for m, n in cm.vehicles():
        for k in sorted(cm.real_class(m, n)(name="e").control_map):
            out.append((m, n, k))
    return out


@contract("axis", names, time=60, samples=60)
def axis(vc, mod, name, act):
    kw = cm.cfg(vc, mod, name)
    body = vc.choice("frame", ("body", "hill")) if name.startswith("SixDOF") else None
    if body == "hill":
        kw["body_frame_thrust"] = False
    with cm.unlimited(vc):
        e = cm.make(vc, mod, name, any_roll=True, **kw)
    u = vc.real("u", mag=1)
    d1 = cm.deriv(vc, e, cm.command_of(vc, e, {act: u}))
    d0 = cm.deriv(vc, e, cm.command_of(vc, e, {}))
    got = cm.at(vc, e, d1 - d0)
    want = {k: 0 for k, _ in got.items()}
    kind, _, ax = act.rpartition("_")
    if kind == "thrust":
        f = [0, 0, 0]
        f[AX[ax]] = u
        if body != "hill":
            f = vc.els(e.orientation.apply(vc.arr(f)))
        for i, k in enumerate(("x_dot", "y_dot", "z_dot")):
            if k in want:
                want[k] = f[i] / kw["m"]
        vc.prove("the thrust axis is modelled", all(k in want for k in ("x_dot", "y_dot", "z_dot")))
    elif kind == "moment":
        want["w" + ax] = u / cm.principal(kw)[AX[ax]]
    else:
        q = {"heading_rate": "heading", "gamma_rate": "gamma", "roll_rate": "roll", "acceleration": "v"}[act]
        want[q] = u
    for k, v in got.items():
        if not (isinstance(want[k], int) and want[k] == 0):
            vc.prove("named quantity responds proportionally", vc.eq(v, want[k], tol=1e-4))
        else:
            vc.prove("no other quantity responds", vc.eq(v, 0, tol=1e-4))
    vc.prove("whole derivative accounted for", len(vc.els(d1)) == len(vc.els(e.state)))
