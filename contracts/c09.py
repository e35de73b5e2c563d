"""C09 a rejected step leaves the entity unchanged

Exceptional postcondition of entity.step: for every way a step can raise, state, reported derivative and default command are those from before."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["errors inside the dynamics are raised by its step (possibly after overwriting its arguments) or by the k-th evaluation of the derivative"]


class Boom(Exception):
    pass


def failing(vc, e, how):
    """an invocation that must raise"""
    n = len(e.control_default)
    h = cm.duration(vc)
    ok = vc.vec("u", n, mag=3)
    d = e.dynamics
    if how == "unknown_name":
        good = sorted(e.control_map)[: vc.choice("names before", (0, 1, n))]
        act = {k: vc.real("u_" + k, mag=3) for k in good}
        act["no_such_actuator"] = vc.real("bad")
        return lambda: e.step(h, act)
    if how == "unsupported_type":
        a = vc.choice("type", ("tuple", "str", "number", "set"))
        act = {"tuple": tuple(vc.els(ok)), "str": "thrust", "number": 1, "set": {1}}[a]
        return lambda: e.step(h, act)
    if how == "unknown_method":
        return lambda: e.step(h, ok)     # constructed with it
    if how == "dynamics_step":
        late = vc.choice("fails", ("at once", "at the second use"))

        class Evil:
            n = 0

            def step(self, step_size, state, control):
                self.n += 1
                if late != "at once" and self.n == 1:
                    return vc.copy(state) + 1, vc.copy(state) - 1
                state[...] = 7
                if n:
                    control[...] = 9
                raise Boom()
        e.dynamics = Evil()
        return lambda: e.step(h, ok if vc.choice("action", (True, False)) else None)
    if how == "derivative":
        at = vc.choice("failing evaluation", (1, 2) if vc.symbolic or d.integration_method == "Euler" else (1, 2, 3, 5, 9, 20))
        orig, k = d.compute_state_dot, e.count

        def f(t, state, control):
            k[0] += 1
            if k[0] == at:
                state[...] = 5
                if n:
                    control[...] = 6
                raise Boom()
            return orig(t, state, control)
        d.compute_state_dot = f
        return lambda: e.step(h, ok if vc.choice("action", (True, False)) else None)
    if how == "warning_as_error":
        i = vc.choice("component", tuple(range(n)))
        ok[i] = cm.bro(vc, e.control_max, n)[i] + vc.real("beyond", pos=True, mag=2)
        act = {"array": ok, "list": list(vc.els(ok)), "dict": {k: vc.els(ok)[i] for k, i in e.control_map.items()}}[vc.choice("action", ("array", "list", "dict"))]
        return lambda: vc.strict_warnings(lambda: e.step(h, act))
    raise AssertionError(how)


CAUSES = ("unknown_name", "unsupported_type", "unknown_method", "dynamics_step", "derivative", "warning_as_error")


@contract("entity", lambda: [(m, n, w) for m, n in cm.entities() for w in CAUSES if not (w in ("unknown_name", "warning_as_error") and n == "SunEntity")], time=60, samples=24)
def entity(vc, mod, name, how):
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    kw = cm.init_values(vc, mod, name)
    unknown = how == "unknown_method"
    method = vc.choice("method", ("bogus", None, "RK45_JAX") if unknown else ("RK45", "Euler"))
    e = cm.cls_of(vc, mod, name)(name="e", integration_method=method, **kw)
    before = "fresh" if unknown else vc.choice("before", ("fresh", "stepped"))
    if before == "stepped":
        e.step(cm.duration(vc), vc.vec("first", len(e.control_default), mag=3))
    if before == "stepped":
        e.control_default = vc.vec("default", len(e.control_default), mag=2)
    s, sd, u0 = vc.copy(e.state), vc.copy(e.state_dot), vc.copy(e.control_default)
    obj = e.control_default
    dyn = e.dynamics
    e.count = [0]
    raised = vc.raises(("KeyError", "ValueError", "Boom", "UserWarning"), failing(vc, e, how))
    if how in ("derivative", "dynamics_step") and not raised:
        vc.assume(False)     # the dynamics were not used that often
    vc.prove("the step raises", raised)
    vc.prove("state as before", vc.same(e.state, s))
    vc.prove("reported derivative as before", vc.same(e.state_dot, sd))
    vc.prove("default command intact", len(vc.els(e.control_default)) == len(vc.els(u0)) and (vc.same(e.control_default, u0) if len(vc.els(u0)) else True)
             and (vc.same(obj, u0) if len(vc.els(u0)) else True))
    if unknown or vc.symbolic and before == "stepped":
        return
    # the entity works afterwards as if nothing had happened
    e.dynamics = dyn
    dyn.__dict__.pop("compute_state_dot", None)
    f = cm.cls_of(vc, mod, name)(name="f", integration_method=method, **kw)
    f.state, f.control_default = s, vc.copy(u0)
    h = cm.duration(vc)
    e.step(h)
    f.step(h)
    vc.prove("next step as if nothing had happened", vc.and_(vc.same(e.state, f.state), vc.same(e.state_dot, f.state_dot)))


@contract("not_finite", lambda: [(m, n) for m, n in cm.vehicles()], bounded="random commands with non-finite components (which the real arithmetic of the proof does not have), 60 per entity", samples=60, con_time=6)
def not_finite(vc, mod, name):
    """a command with non-finite components that the dynamics rejects"""
    kw = cm.init_values(vc, mod, name)
    e = cm.cls_of(vc, mod, name)(name="e", integration_method=vc.choice("method", ("RK45", "Euler")), **kw)
    n = len(e.control_default)
    if vc.choice("before", ("fresh", "stepped")) == "stepped":
        e.step(cm.duration(vc), vc.vec("first", n, mag=3))
    names = list(e.control_map)
    act = {k: vc.choice("value of " + k, (float("nan"), float("inf"), -float("inf"), 0.5, 1e300)) for k in vc.subset("named", names)}
    kind = vc.choice("kind", ("dict", "list", "array"))
    if kind != "dict":
        vals = [act.get(k, 0.0) for k in names]
        act = list(vals) if kind == "list" else vc.np.array(vals)
    s, sd, u0 = vc.copy(e.state), vc.copy(e.state_dot), vc.copy(e.control_default)
    where = vc.choice("fails", ("the step", "the derivative"))

    def reject(*a):
        raise Boom()
    if where == "the step":
        e.dynamics.step = reject
    else:
        e.dynamics._compute_state_dot = reject
    vc.prove("the step raises", vc.raises("Boom", lambda: e.step(cm.duration(vc), act)))
    vc.prove("state as before", vc.same(e.state, s))
    vc.prove("reported derivative as before", vc.same(e.state_dot, sd))
    vc.prove("default command intact", vc.same(e.control_default, u0))
