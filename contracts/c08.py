"""C08 a step depends only on state, action, step size and configuration

Two obligations per entity class: (frame) a step leaves everything but state, reported derivative and trajectory unchanged, hence any
history is irrelevant; (relational) an entity with an arbitrary prior history and a fresh one, in equal states, step to equal results."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["relational obligation: histories of one (thorough: two) operations (concrete runs: four) drawn from steps of itself, rejected steps, constructing and stepping another entity (all values symbolic); "
          "histories of any length follow from the frame obligation, where that is discharged"]


def opts(vc, mod, name, method, tag=""):
    kw = cm.cfg(vc, mod, name, tag)
    kw["integration_method"] = method
    return kw


def history(vc, e, mod, name, kw, i, ini, h, act):
    k = vc.choice("history%d" % i, ("none", "step", "step_dict", "rejected", "other_same_config", "other_config", "other_one_changed"))
    n = len(e.control_default)
    if k == "step":
        e.state = vc.arr(state_of(vc, mod, name, "h%d" % i))
        e.step(cm.duration(vc), vc.vec("hu%d_" % i, n, mag=2))
    elif k == "step_dict" and e.control_map:
        e.step(cm.duration(vc), {sorted(e.control_map)[0]: vc.real("hd%d" % i, mag=2)})
    elif k == "rejected":
        vc.raises(("ValueError", "KeyError"), lambda: e.step(cm.duration(vc), "bogus"))
        if e.control_map:
            vc.raises(("ValueError", "KeyError"), lambda: e.step(cm.duration(vc), {sorted(e.control_map)[0]: 3, "bogus": 1}))
    elif k.startswith("other"):
        kw2 = kw if k == "other_same_config" else opts(vc, mod, name, kw["integration_method"], "o%d" % i)
        if k == "other_one_changed":
            # one physical parameter differs; everything else, the initial values, the command and the step size are the same
            keys = [x for x in sorted(kw) if x != "integration_method"]
            kw2 = dict(kw)
            if keys:
                x = keys[vc.choice("changed%d" % i, tuple(range(len(keys))))]
                kw2[x] = opts(vc, mod, name, kw["integration_method"], "o%d" % i)[x]
            o = cm.cls_of(vc, mod, name)(name="other", **ini, **kw2)
            o.step(h, vc.copy(act))
        else:
            o = cm.make(vc, mod, name, "other%d_" % i, nm="other", **kw2)
            o.step(cm.duration(vc), vc.vec("ou%d_" % i, n, mag=2))
    return k


def state_of(vc, mod, name, tag):
    return cm.cls_of(vc, mod, name)(name="tmp", **cm.init_values(vc, mod, name, tag)).state


@contract("history", lambda: [(m, n, k) for m, n in cm.entities() for k in ("RK45", "Euler")], time=100, samples=50, con_time=20, isolate=True)
def relational(vc, mod, name, method):
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    kw = opts(vc, mod, name, method)
    ini = cm.init_values(vc, mod, name)
    c = cm.cls_of(vc, mod, name)
    n = len(cm.real_class(mod, name)(name="n", **dict.fromkeys(cm.fields(mod, name), 0.5)).control_default)
    h = cm.duration(vc)
    act = vc.vec("u", n, mag=2)
    given = vc.choice("action", ("none", "array")) == "array"

    def step(e):
        e.step(h, vc.copy(act) if given else None)
        d = e.dynamics
        return [vc.els(vc.copy(e.state)), vc.els(vc.copy(e.state_dot)), None if d.trajectory is None else vc.els(vc.copy(d.trajectory)), None if d.trajectory_t is None else vc.els(vc.copy(d.trajectory_t))]

    want = vc.isolated(lambda: step(cm.cls_of(vc, mod, name)(name="b", **ini, **kw)))
    a = c(name="a", **ini, **kw)
    first = vc.copy(a.state)
    others = False
    for i in range((1 if vc.tier == "quick" else 2) if vc.symbolic else 4):
        others = history(vc, a, mod, name, kw, i, ini, h, act).startswith("other") or others
    if others and vc.choice("built", ("before", "after")) == "after":
        a = c(name="a2", **ini, **kw)
    else:
        a.state = vc.copy(first)
    for what, x, y in zip(("new states", "reported derivatives", "trajectories", "trajectory times"), step(a), want):
        vc.prove("equal " + what, (x is None) == (y is None) if x is None or y is None else len(x) == len(y) and vc.same(x, y))


@contract("stepping_others", lambda: [(m, n, k) for m, n in cm.entities() for k in ("RK45", "Euler")], time=60, samples=30)
def stepping_others(vc, mod, name, method):
    """stepping one entity leaves every other entity as it was"""
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    kw = opts(vc, mod, name, method)
    c = cm.cls_of(vc, mod, name)
    a = c(name="a", **cm.init_values(vc, mod, name, "a"), **kw)
    b = c(name="b", **cm.init_values(vc, mod, name, "b"), **kw)
    if vc.choice("stepped before", (False, True)):
        b.step(cm.duration(vc))
    s, d = vc.copy(b.state), vc.copy(b.state_dot)
    tr = b.dynamics.trajectory
    tr = None if tr is None else vc.els(vc.copy(tr))
    n = len(a.control_default)
    if hasattr(a, "register_partner"):
        p = vc.choice("partners", ("none", "mutual", "one way"))
        if p != "none":
            a.register_partner(b)
            vc.prove("the registered partner", a.partner is b)
        if p == "mutual":
            b.register_partner(a)
    a.step(cm.duration(vc), vc.vec("u", n, mag=2) if vc.choice("action", ("none", "array")) == "array" else None)
    vc.prove("other entity's state unchanged", vc.same(b.state, s))
    vc.prove("other entity's reported derivative unchanged", vc.same(b.state_dot, d))
    vc.prove("other entity's trajectory unchanged", tr is None and b.dynamics.trajectory is None or vc.same(vc.els(b.dynamics.trajectory), tr))


@contract("partner", lambda: [(m, n, k) for m, n in cm.vehicles() if hasattr(cm.real_class(m, n), "register_partner") for k in ("RK45", "Euler")], time=60, samples=30)
def partner(vc, mod, name, method):
    """registering a partner, of whatever state, changes no step"""
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    kw = opts(vc, mod, name, method)
    ini = cm.init_values(vc, mod, name)
    c = cm.cls_of(vc, mod, name)
    a, b = c(name="a", **ini, **kw), c(name="b", **ini, **kw)
    o = cm.make(vc, mod, name, "other", nm="other", **kw)
    a.register_partner(o)
    if vc.choice("mutual", (False, True)):
        o.register_partner(a)
    h, act = cm.duration(vc), vc.vec("u", len(a.control_default), mag=2)
    a.step(h, vc.copy(act))
    b.step(h, vc.copy(act))
    vc.prove("equal new states", vc.same(vc.els(a.state), vc.els(b.state)))
    vc.prove("equal reported derivatives", vc.same(vc.els(a.state_dot), vc.els(b.state_dot)))


@contract("frame", lambda: [(m, n, k) for m, n in cm.entities() for k in ("RK45", "Euler")], time=60, samples=20)
def frame(vc, mod, name, method):
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    e = cm.make(vc, mod, name, **opts(vc, mod, name, method))
    act, _ = cm.action_of(vc, e, "dict" if e.control_map and vc.choice("kind", ("array", "dict")) == "dict" else "array", len(e.control_default))
    f = cm.frame(vc, e)
    e.step(cm.duration(vc), act)
    vc.prove("a step changes nothing but state, reported derivative and trajectory", cm.frame_same(vc, f, cm.frame(vc, e)), soft=True)
    vc.prove("default command unchanged", cm.same_flat(vc, f["entity.control_default"], cm.flat(vc, e.control_default)))
    vc.prove("actuator limits unchanged", vc.and_(*[cm.same_flat(vc, f["entity." + k], cm.flat(vc, getattr(e, k))) for k in ("control_min", "control_max", "control_map")]))
    vc.prove("state limits and wrapping unchanged", vc.and_(*[cm.same_flat(vc, f["dynamics." + k], cm.flat(vc, getattr(e.dynamics, k))) for k in ("state_min", "state_max", "angle_wrap_centers", "state_dot_min", "state_dot_max", "trajectory_samples", "integration_method")]))


@contract("user_model", [(k, n) for k in cm.METHODS for n in (1, 2)], time=60, samples=16)
def user_model(vc, method, n):
    """any model derivative: the second of two steps from equal states gives the result of the first"""
    j = method == "RK45_JAX"
    if not vc.symbolic and j and vc.rng.random() < 0.9:
        vc.assume(False)
    if vc.symbolic:
        def raw(self, t, x, c):
            return vc.arr([vc.uf("f%d" % i, t, x, c) for i in range(n)])
    else:
        a = vc.real("a", lo=-1, hi=1)

        def raw(self, t, x, c):
            return a * x + self.np.sin(t) + c[0]
    kw = dict(integration_method=method, use_jax=j)
    d = cm.raw_dynamics(vc, "BaseODESolverDynamics", n, raw, **kw)
    s, u, h = vc.vec("s", n, mag=3), vc.vec("u", 1), cm.duration(vc)
    J = lambda v: cm.jvec(vc, vc.copy(v), j)  # noqa: E731
    x, xd = d.step(h, J(s), J(u))
    x, xd = vc.copy(x) if vc.symbolic else list(x), vc.copy(xd) if vc.symbolic else list(xd)
    d.step(cm.duration(vc), J(vc.vec("s'", n, mag=3)), J(vc.vec("u'", 1)))
    y, yd = d.step(h, J(s), J(u))
    vc.prove("equal new states", vc.same(list(vc.els(x)), list(vc.els(y))))
    vc.prove("equal reported derivatives", vc.same(list(vc.els(xd)), list(vc.els(yd))))


@contract("long_history", lambda: [(m, n) for m, n in cm.entities()], bounded="random histories of up to 150 steps, constructions, rejected steps and state assignments; complements the frame obligation, which is what covers every length",
          samples=12, con_time=10, isolate=True)
def long_history(vc, mod, name):
    method = vc.choice("method", ("Euler", "Euler", "RK45"))
    kw = opts(vc, mod, name, method)
    ini = cm.init_values(vc, mod, name)
    c = cm.cls_of(vc, mod, name)
    h, n = vc.choice("h", (0.1, 1, 0.5)), len(cm.real_class(mod, name)(name="n", **dict.fromkeys(cm.fields(mod, name), 0.5)).control_default)
    act = vc.vec("u", n, mag=1)

    def step(e):
        e.step(h, vc.copy(act))
        return [vc.els(vc.copy(e.state)), vc.els(vc.copy(e.state_dot))]
    want = vc.isolated(lambda: step(c(name="b", **ini, **kw)))
    a = c(name="a", **ini, **kw)
    first = vc.copy(a.state)
    others = [c(name="o", **ini, **kw)]
    for _ in range(vc.rng.choice((12, 40, 150 if method == "Euler" else 60))):
        k = vc.rng.choice(("step", "step", "step", "same", "other", "new", "reset", "rejected", "default"))
        if k == "same":
            a.step(h, vc.copy(act))
        elif k in ("step", "default"):
            a.step(vc.rng.choice((0.1, 1, h)), None if k == "default" else vc.np.array([vc.rng.uniform(-1, 1) for _ in range(n)]))
        elif k == "other":
            vc.rng.choice(others).step(h, vc.copy(act))
        elif k == "new":
            others.append(c(name="o", **ini, **kw))
        elif k == "reset":
            a.state = vc.copy(first)
        else:
            vc.raises(("ValueError", "KeyError"), lambda: a.step(h, "bogus"))
        a.state = vc.copy(first) if not vc.np.all(vc.np.isfinite(a.state)) or vc.np.any(vc.np.abs(a.state) > 1e6) else a.state
    if vc.rng.random() < 0.3:
        a = c(name="a2", **ini, **kw)
    a.state = vc.copy(first)
    for what, x, y in zip(("new states", "reported derivatives"), step(a), want):
        vc.prove("equal " + what, len(x) == len(y) and vc.same(x, y))
