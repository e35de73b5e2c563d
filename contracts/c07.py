"""C07 a step integrates the model over exactly the requested duration

Contract between _step and the ODE solvers: the initial value problem handed over is (compute_state_dot(., ., control), state, [0, h]) at default
accuracy or better; explicit Euler is the one-step formula; the reported derivative is compute_state_dot(h, result, control).  The
solvers themselves are trusted in the proofs; the concrete runs compare with an independent high-accuracy integration."""
from contracts import common as cm
from vf.engine import GEN
from vf.registry import contract

ASSUME = ["scipy solve_ivp and jax odeint solve the initial value problem they are given to the requested tolerance (their success flag is not inspected by the code)",
          "any number of trajectory samples (symbolic, at an arbitrary sample) for one and two state variables, 1, 2, 3 and 5 samples for three",
          "a RK45_JAX step has positive length (odeint requires increasing times: a step of length zero returns NaN); the other methods are also specified for length zero"]
TRUST = ["scipy.integrate.solve_ivp", "jax.experimental.ode.odeint"]
ACC = {"solve_ivp": (1e-3, 1e-6), "odeint": (1.4e-8, 1.4e-8)}
GOOD = ("RK45", "RK23", "DOP853", "Radau", "BDF", "LSODA")


def ivp(vc, dyn, s, u, h, got_state, got_dot, traj=0):
    """symbolic obligations: the solver calls form the initial value problem of the step"""
    calls = [c for c in vc.ghost if getattr(c, "solver", None)]
    if not calls:
        vc.unsupported("no ODE solver call to specify")
    y, t = s, 0
    for c in calls:
        vc.prove("integration starts from the current state", vc.eq(c.y0, y))
        vc.prove("integration starts at the beginning of the step", vc.eq(c.t0, t))
        vc.prove("accuracy no looser than the solver's default", _tight(vc, c))
        vc.prove("the integrated derivative is the model's, command held constant", vc.eq(c.rhs, dyn.compute_state_dot(c.probe_t, c.probe_y, u)))
        vc.prove("evaluating the derivative leaves the solver's state alone", c.probe_clean)
        vc.prove("the sampled end is the end of the integration", vc.eq(c.ts[-1], c.tf))
        y, t = c.result, c.tf
    vc.prove("integration covers exactly the step size", vc.eq(t, h))
    vc.prove("new state is the end of the integration", vc.eq(got_state, y))
    vc.prove("reported derivative is the model's at the end of the integration", vc.eq(got_dot, dyn.compute_state_dot(h, y, u)))
    if traj:
        vc.prove("number of trajectory samples", len(vc.els(dyn.trajectory_t)) == traj and len(dyn.trajectory) == traj)
        vc.prove("samples equally spaced, last at the end of the step", vc.eq(dyn.trajectory_t, [h * (k + 1) / vc.q(traj) for k in range(traj)]))
        if len(calls) == 1:
            for k in range(traj):
                vc.prove("samples are the solution at their times", vc.and_(vc.eq(dyn.trajectory[k], calls[0].cols[k]), vc.eq(calls[0].ts[k], h * (k + 1) / vc.q(traj))))
        vc.prove("last sample is the end of the integration", vc.eq(dyn.trajectory[traj - 1], y))


def _tight(vc, c):
    r, a = ACC[c.solver]
    if c.solver == "solve_ivp" and c.method not in GOOD:
        return False
    rt, at = c.options.get("rtol", r), c.options.get("atol", a)
    return vc.and_(vc.le(rt, vc.num(r)), vc.le(at, vc.num(a)))


def reference(f, s, h, u):
    """independent integration, and the default solver's own error"""
    import numpy as np
    from scipy.integrate import solve_ivp
    g = lambda t, y: np.asarray(f(t, y, u), dtype=np.float64)  # noqa: E731
    ref = solve_ivp(g, (0, float(h)), np.asarray(s, dtype=np.float64), method="DOP853", rtol=1e-9, atol=1e-9).y[:, -1]
    d = solve_ivp(g, (0, float(h)), np.asarray(s, dtype=np.float64)).y[:, -1]
    return ref, np.abs(d - ref)


def concretely(vc, method, f, s, u, h, got, dot, fdot, exact=1e-4):
    import numpy as np
    s, got, dot = (np.asarray(x, dtype=np.float64) for x in (s, got, dot))
    if method == "Euler":
        want = s + h * np.asarray(f(0, s, u), dtype=np.float64)
        vc.prove("Euler: state plus step size times derivative", vc.eq(got, want, tol=exact))
        end = want
    else:
        ref, err = reference(f, s, h, u)
        vc.assume(bool(np.all(np.isfinite(ref))) and bool(np.all(np.abs(ref) < 1e8)))
        if h >= 5:
            err = np.max(err)
        tol = (4 * err if method == "RK45" else 0) + (2e-4 if method == "RK45" else 2e-3) * (1 + np.max(np.abs(ref)))
        vc.prove("state is the solution of the initial value problem", bool(np.all(np.abs(got - ref) <= tol)))
        end = got
    w = np.asarray(fdot(h, end, u), dtype=np.float64)
    vc.prove("reported derivative is the model's at the end of the integration", vc.eq(dot, w, tol=2e-3))


@contract("any_model", [(m, n) for m in cm.METHODS for n in (1, 2, 3, GEN)], time=60, samples=40, con_time=20)
def any_model(vc, method, n):
    """n: number of state variables; generic: any number (the derivative at an arbitrary component, an unknown function of time, state and command)"""
    if n is GEN and not vc.symbolic:
        n = vc.rng.randint(1, 9)
    j = method == "RK45_JAX"
    if not vc.symbolic and j and vc.rng.random() < 0.93:
        vc.assume(False)
    # a state of integers is advanced like one of floating-point numbers
    whole = n is not GEN and n > 1 and not j and vc.choice("state given as", ("numbers", "integers")) == "integers"
    s, u, h = vc.ints("s", n) if whole else vc.vec("s", n, mag=3), vc.vec("u", 2, mag=1), cm.duration(vc, zero=not j)
    if not vc.symbolic and method != "Euler":
        vc.assume(h < (400 if n > 1 and not j else 5))     # a reference solution of a growing system over minutes is no reference
    if n is GEN:
        from vf import npshim

        def raw(self, t, x, c):
            return npshim.varr(vc.uf("f", t, x, c))
    elif vc.symbolic:
        def raw(self, t, x, c):
            return vc.arr([vc.uf("f%d" % i, t, x, c) for i in range(n)])
    else:
        import numpy as np
        A = np.array([[vc.real("A%d%d" % (i, k), lo=-1, hi=1) for k in range(n)] for i in range(n)])
        if n > 1:
            A[0, 1] += 2
            A[1, 0] -= 2
        B = np.array([[vc.real("B%d%d" % (i, k), lo=-2, hi=2) for k in range(2)] for i in range(n)])
        w = vc.real("w", lo=0, hi=3)
        A = A - 0.5 * np.eye(n) if h < 5 or method == "Euler" else (A - A.T) / 2     # long steps: neither growing nor decaying

        def raw(self, t, x, c):
            p = self.np
            return p.array(A) @ x + p.array(B) @ c + p.sin(w * t)
    tr = vc.choice("samples", (0, 1, 2, 3, 5)) if method == "RK45" and n is not GEN and not isinstance(h, int) else 0
    d = cm.raw_dynamics(vc, "BaseODESolverDynamics", n, raw, integration_method=method, use_jax=j, trajectory_samples=tr)
    cm.earlier(vc, lambda: d.step(vc.real("h'", lo=vc.q(1, 100), hi=1), cm.jvec(vc, vc.vec("s'", n, mag=3), j), cm.jvec(vc, vc.vec("u'", 2, mag=1), j)))
    nxt, dot = d.step(h, cm.jvec(vc, vc.copy(s), j), cm.jvec(vc, vc.copy(u), j))
    if vc.symbolic:
        if method == "Euler":
            e = s + h * d.compute_state_dot(0, s, u)
            vc.prove("Euler: state plus step size times derivative", vc.eq(nxt, e))
            return vc.prove("reported derivative is the model's at the end of the integration", vc.eq(dot, d.compute_state_dot(h, e, u)))
        return ivp(vc, d, s, u, h, nxt, dot, tr)
    f = lambda t, x, c: A @ x + B @ c + np.sin(w * t)  # noqa: E731
    concretely(vc, method, f, s, u, h, nxt, dot, f, 1e-9)
    if tr:
        tt, tj = np.asarray(d.trajectory_t), np.asarray(d.trajectory)
        vc.prove("samples equally spaced, last at the end of the step", tj.shape == (tr, n) and vc.eq(tt, [h * (k + 1) / tr for k in range(tr)], tol=1e-9))
        for k in range(tr):
            ref, err = reference(f, s, tt[k], u)
            vc.prove("samples are the solution at their times", bool(np.all(np.abs(tj[k] - ref) <= 2e-2 * (1 + np.max(np.abs(ref))) + (4 * np.max(err) if h >= 5 else 0))))
        vc.prove("last sample is the end of the integration", vc.eq(tj[-1], nxt))


@contract("any_samples", [(1,), (2,)], time=60, samples=15, con_time=15)
def any_samples(vc, n):
    """any number of trajectory samples: at an arbitrary sample, its time and the solution there"""
    s, u, h = vc.vec("s", n, mag=3), vc.vec("u", 2, mag=1), vc.real("h", pos=True, hi=3, mag=1)
    k = vc.int("K", 1, None if vc.symbolic else 60)
    if vc.symbolic:
        def raw(self, t, x, c):
            return vc.arr([vc.uf("f%d" % i, t, x, c) for i in range(n)])
        g = vc.index("g", k)
    else:
        import numpy as np
        a, b = vc.real("a", lo=-1, hi=1), vc.real("b", lo=-2, hi=2)

        def raw(self, t, x, c):
            return a * x + b * c[0] + np.sin(t)
        vc.assume(k < 5000)
        g = vc.int("g", 0, k - 1)
        vc.assume(g < k)
    d = cm.raw_dynamics(vc, "BaseODESolverDynamics", n, raw, integration_method="RK45", trajectory_samples=k)
    nxt, dot = d.step(h, vc.copy(s), vc.copy(u))
    tt, tj = d.trajectory_t, d.trajectory
    at = h * (g + 1) / k
    if not vc.symbolic:
        vc.prove("number of trajectory samples", len(tt) == len(tj) == k)
        vc.prove("samples equally spaced, last at the end of the step", vc.and_(vc.eq(tt[g], at, tol=1e-9), vc.eq(tt[k - 1], h, tol=1e-9)))
        f = lambda t, x, c: a * x + b * c[0] + np.sin(t)  # noqa: E731
        ref, err = reference(f, s, tt[g], u)
        vc.prove("samples are the solution at their times", bool(np.all(np.abs(tj[g] - ref) <= 2e-2 * (1 + np.max(np.abs(ref))))))
        vc.prove("last sample is the end of the integration", vc.eq(tj[-1], nxt))
        return concretely(vc, "RK45", f, s, u, h, nxt, dot, f)
    ivp(vc, d, s, u, h, nxt, dot)
    calls = [c for c in vc.ghost if getattr(c, "solver", None)]
    from vf import gen
    if len(calls) != 1 or not gen.isgen(tt) or not gen.isgen(tj):
        vc.unsupported("samples not taken from one solution")
    c = calls[0]
    vc.prove("number of trajectory samples", vc.and_(tt.n == k, tj.n == k))
    vc.prove("samples equally spaced, last at the end of the step", vc.and_(vc.eq(tt[g], at), vc.eq(tt[k - 1], h)))
    vc.prove("samples are the solution at their times", vc.and_(vc.eq(tj[g], c.cols[g]), vc.eq(c.ts[g], at)))
    vc.prove("last sample is the end of the integration", vc.eq(tj[k - 1], c.result))


@contract("entity", lambda: [(m, n, k) for m, n in cm.entities() for k in ("RK45", "Euler")], time=90, samples=25, con_time=20)
def entity(vc, mod, name, method):
    kw = cm.cfg(vc, mod, name) if vc.symbolic else {}
    tr = 0
    if method == "RK45" and "trajectory_samples" in cm.inspect.signature(cm.real_class(mod, name).__init__).parameters:
        tr = kw["trajectory_samples"] = vc.choice("samples", (0, 2, 3))
    with cm.unlimited(vc, angle_wrap_centers=None):
        e = cm.make(vc, mod, name, integration_method=method, **kw)
    vc.assume_defined("the model derivative is defined wherever the integrator evaluates it")
    s, h = e.state, cm.duration(vc)
    if not vc.symbolic:
        vc.assume(h < 2 and float(max(abs(s))) < 2000)
    n = len(e.control_default)
    act, u = cm.action_of(vc, e, "array", n)
    u = vc.arr(u)
    cm.earlier(vc, lambda: e.step(cm.duration(vc), vc.vec("u'", n, mag=2)))
    e.state = vc.copy(s)
    e.step(h, act)
    d = e.dynamics
    if not vc.symbolic:
        import numpy as np
        f = lambda t, x, c: np.asarray(d.compute_state_dot(t, np.asarray(x, dtype=np.float64), np.asarray(c, dtype=np.float64)))  # noqa: E731
        if method == "RK45":      # a model that blows up within the step has no solution to compare with
            from scipy.integrate import solve_ivp
            vc.assume(bool(solve_ivp(lambda t, x: f(t, x, u), (0, float(h)), np.asarray(s, dtype=np.float64)).success))
        if tr:
            tt, tj = np.asarray(d.trajectory_t), np.asarray(d.trajectory)
            vc.prove("samples equally spaced, last at the end of the step", tj.shape == (tr, len(s)) and vc.eq(tt, [h * (k + 1) / tr for k in range(tr)], tol=1e-9))
            vc.prove("last sample is the end of the integration", vc.eq(tj[-1], e.state))
        return concretely(vc, method, f, s, u, h, e.state, e.state_dot, f)
    if method == "Euler":
        x = s + h * d.compute_state_dot(0, s, u)
        vc.prove("Euler: state plus step size times derivative", vc.eq(e.state, x))
        vc.prove("reported derivative is the model's at the end of the integration", vc.eq(e.state_dot, d.compute_state_dot(h, x, u)))
    else:
        ivp(vc, d, s, u, h, e.state, e.state_dot, tr)


BOGUS = ["rk45", "EULER", "euler", "", None, "RK23", "RK4", "LSODA", "RK45_jax", "Euler ", 0, True]


@contract("unknown_method", ["user", "entity"], time=60, samples=30)
def unknown_method(vc, what):
    m = vc.choice("method", BOGUS)
    if what == "user":
        def go():
            d = cm.raw_dynamics(vc, "BaseODESolverDynamics", 2, lambda self, t, x, c: x, integration_method=m)
            d.step(vc.real("h", pos=True), vc.vec("s", 2), vc.vec("u", 1))
    else:
        mod, name = vc.choice("entity", cm.vehicles())

        def go():
            e = cm.make(vc, mod, name, integration_method=m)
            e.step(vc.real("h", pos=True))
    vc.prove("unknown integration method raises ValueError", vc.raises("ValueError", go))


@contract("inconsistent_method", None, time=60, samples=10)
def inconsistent_method(vc):
    def go():
        d = cm.raw_dynamics(vc, "BaseODESolverDynamics", 2, lambda self, t, x, c: x, integration_method="RK45_JAX", use_jax=False)
        d.step(vc.real("h", pos=True), vc.vec("s", 2), vc.vec("u", 1))
    vc.prove("RK45_JAX without use_jax raises ValueError", vc.raises("ValueError", go))
