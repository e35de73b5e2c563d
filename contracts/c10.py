"""C10 state, commands and inputs are isolated from aliasing

Frame and ownership conditions: what an entity hands out or is given shares no memory with it; a step modifies neither the caller's action,
the default command nor the limits; dynamics modify neither state nor control."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["the public attributes state_dot, control_default and the limits are themselves not copies when read (they are configuration and reports, not accessors)"]
SEQ = [0]
VECS = ("state", "position", "velocity", "quaternion", "angular_velocity", "acceleration")


def scribble(vc, a):
    """overwrite a handed-out array"""
    import numpy
    if isinstance(a, numpy.ndarray) and getattr(a, "ndim", 0) > 0:
        SEQ[0] += 1          # never the value an earlier run left behind
        for i in range(len(a)):
            a[i] = 77 + i + 100 * (SEQ[0] % 997)
        return True
    return False


def reads(vc, e):
    out = []
    for k in VECS:
        if hasattr(type(e), k):
            try:
                out.append((k, vc.els(vc.copy(vc.arr(vc.els(getattr(e, k)))))))
            except NotImplementedError:
                pass
    return out


def unchanged(vc, label, e, before):
    after = reads(vc, e)
    for (k, x), (_, y) in zip(before, after):
        vc.prove(label, vc.same(x, y))


@contract("handed_out", lambda: cm.entities(), time=40, samples=30)
def handed_out(vc, mod, name):
    e = cm.make(vc, mod, name, free=True)
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    if vc.choice("stepped", (False, True)):
        e.step(cm.duration(vc))
        if hasattr(type(e), "q1") and len(e.state) > 12:
            vc.assume(vc.or_(*[vc.not_(x == 0) for x in (e.q1, e.q2, e.q3, e.q4)]))     # a zero quaternion has no orientation to hand out
    before = reads(vc, e)
    for k, _ in before:
        try:
            a = getattr(e, k)
            if not scribble(vc, a):
                continue
        except ValueError:
            continue        # a read-only array cannot change the entity either
        unchanged(vc, "changing a handed-out vector does not change the entity", e, before)


@contract("given_state", lambda: cm.entities(), time=40, samples=30)
def given_state(vc, mod, name):
    e = cm.make(vc, mod, name, free=True)
    s = vc.ints("s", len(e.state)) if vc.choice("whole numbers", (False, True)) else vc.vec("s", len(e.state), mag=20)
    e.state = s
    keep = vc.els(vc.copy(s))
    vc.prove("the given state is the state", vc.same(e.state, keep))
    scribble(vc, s)
    vc.prove("changing the given array does not change the entity", vc.same(e.state, keep))
    # a transition result kept and changed by the dynamics
    a, b = vc.vec("next", len(keep)), vc.vec("dot", len(keep))
    ka = vc.els(vc.copy(a))

    class Keeps:
        def step(self, step_size, state, control):
            return a, b
    e.dynamics = Keeps()
    e.step(1)
    scribble(vc, a)
    vc.prove("changing the dynamics' result does not change the entity", vc.same(e.state, ka))


@contract("step_inputs", lambda: [(m, n, k) for m, n in cm.entities() for k in ("none", "dict", "list", "array")], time=40, samples=20)
def step_inputs(vc, mod, name, kind):
    """even a dynamics that overwrites its arguments"""
    e = cm.make(vc, mod, name, free=True)
    n = len(e.control_default)
    if kind == "dict" and not e.control_map:
        return vc.prove("no published actuators", n == 0)
    act, _ = cm.action_of(vc, e, kind, n)
    keep = cm.flat(vc, act)
    lim = [cm.flat(vc, x) for x in (e.control_default, e.control_min, e.control_max, e.control_map)]
    s = vc.copy(e.state)
    if vc.choice("dynamics", ("own", "overwriting")) == "overwriting":
        class Evil:
            def step(self, step_size, state, control):
                scribble(vc, state)
                scribble(vc, control)
                return s, s
        e.dynamics = Evil()
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    e.step(cm.duration(vc), act)
    vc.prove("the caller's action is not modified", cm.same_flat(vc, keep, cm.flat(vc, act)))
    for what, a, x in zip(("default command", "control_min", "control_max", "control_map"), lim, (e.control_default, e.control_min, e.control_max, e.control_map)):
        vc.prove("%s is not modified" % what, cm.same_flat(vc, a, cm.flat(vc, x)))


@contract("dynamics_inputs", lambda: [(m, n, k) for m, n in cm.entities() for k in ("compute_state_dot", "step", "step_euler")], time=40, samples=30)
def dynamics_inputs(vc, mod, name, what):
    e = cm.make(vc, mod, name, integration_method="Euler" if what == "step_euler" else "RK45")
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    s, u = e.state, vc.vec("u", len(e.control_default), mag=2)
    ks, ku = vc.els(vc.copy(s)), vc.els(vc.copy(u))
    d = e.dynamics
    lim = [cm.flat(vc, getattr(d, k)) for k in ("state_min", "state_max", "state_dot_min", "state_dot_max", "angle_wrap_centers")]
    out = d.compute_state_dot(0, s, u) if what == "compute_state_dot" else d.step(cm.duration(vc), s, u)
    vc.prove("the state passed in is not modified", vc.same(s, ks))
    vc.prove("the control passed in is not modified", vc.same(u, ku) if ku else True)
    vc.prove("limits are not modified", vc.and_(*[cm.same_flat(vc, a, cm.flat(vc, getattr(d, k))) for a, k in zip(lim, ("state_min", "state_max", "state_dot_min", "state_dot_max", "angle_wrap_centers"))]))
    # results are the caller's own
    scribble(vc, out if what == "compute_state_dot" else out[0])
    vc.prove("changing the result does not modify the arguments", vc.and_(vc.same(s, ks), vc.same(u, ku) if ku else True))
    vc.prove("changing the result does not modify the entity", vc.same(e.state, ks))


@contract("sharing", lambda: [(m, n, k) for m, n in cm.entities() for k in ("defaults", "same arguments")], time=40, samples=10)
def sharing(vc, mod, name, how):
    """changing everything reachable of one entity's state, command and limits leaves another of the same construction alone"""
    kw = cm.init_values(vc, mod, name, free=True) if how == "same arguments" else {}
    c = cm.cls_of(vc, mod, name)
    a, b = c(name="a", **kw), c(name="b", **kw)
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    a.step(cm.duration(vc))
    b.step(cm.duration(vc))
    get = lambda e: [cm.flat(vc, x) for x in (e.state, e.state_dot, e.control_default, e.control_min, e.control_max, e.control_map,  # noqa: E731
                                             e.dynamics.state_min, e.dynamics.state_max, e.dynamics.trajectory, e.dynamics.trajectory_t)]
    before = get(b)
    for x in (a._state, a.state_dot, a.control_default, a.control_min, a.control_max, a.dynamics.state_min, a.dynamics.state_max, a.dynamics.trajectory, a.dynamics.trajectory_t):
        try:
            if getattr(x, "ndim", 0) == 2:
                for r in range(len(x)):
                    scribble(vc, x[r])
            else:
                scribble(vc, x)
        except ValueError:
            pass
    if a.control_map is not None:
        a.control_map["new"] = 0
    vc.prove("entities share no mutable state", vc.and_(*[cm.same_flat(vc, x, y) for x, y in zip(before, get(b))]))
    vc.prove("dynamics objects are not shared", a.dynamics is not b.dynamics)


@contract("trajectory", lambda: [(m, n) for m, n in cm.vehicles()], time=40, samples=10)
def trajectory(vc, mod, name):
    """the stored samples do not alias the entity's state"""
    e = cm.make(vc, mod, name, trajectory_samples=2)
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    e.step(cm.duration(vc))
    s = vc.els(vc.copy(e.state))
    for r in range(len(e.dynamics.trajectory)):
        scribble(vc, e.dynamics.trajectory[r])
    vc.prove("changing the trajectory does not change the state", vc.same(e.state, s))
    k = cm.flat(vc, e.dynamics.trajectory)
    e.state = vc.arr([1] * len(s))
    scribble(vc, e._state)
    vc.prove("changing the state does not change the trajectory", cm.same_flat(vc, k, cm.flat(vc, e.dynamics.trajectory)))
