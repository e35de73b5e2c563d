"""C06 rate limits and state bounds are respected by the derivative

Postcondition of compute_state_dot for an arbitrary model derivative, state, limits and dimension; and of _step: every integration method's
right-hand side is that same limited derivative."""
from contracts import common as cm
from vf.engine import GEN
from vf.registry import contract

ASSUME = ["where derivative limits exclude zero and the component is at a state bound, the two requirements contradict each other and the bound prevails; state_min <= state_max (reported derivative after a step: state_min < state_max)"]


def rate_limits(vc, n, shape, zero=True):
    lo, hi = vc.limits("rate", n, mag=3) if shape != "scalar" else vc.scalar_limits("rate", mag=3)
    if zero:
        vc.assume(vc.and_(vc.le(lo, 0, tol=0), vc.le(0, hi, tol=0)))
    return lo, hi


def state_limits(vc, n, shape):
    return vc.limits("lim", n, mag=3) if shape != "scalar" else vc.scalar_limits("lim", mag=3)


def at_bounds(vc, s, lo, hi):
    """in concrete runs: move some components onto or beyond a bound"""
    if vc.symbolic:
        return s
    out = list(vc.els(s))
    lo, hi = cm.bro(vc, lo, len(out)), cm.bro(vc, hi, len(out))
    for i in range(len(out)):
        k = vc.rng.randrange(4)
        if k == 0 and abs(lo[i]) < 1e30:
            out[i] = lo[i]
        elif k == 1 and abs(hi[i]) < 1e30:
            out[i] = hi[i]
        vc.used["s_at%d" % i] = float(out[i])
        if "s_at%d" % i in vc.env:
            out[i] = vc.env["s_at%d" % i]
            vc.used["s_at%d" % i] = out[i]
    return vc.arr(out)


def posts(vc, sd, d, s, lo, hi, rlo, rhi):
    sd, d, s = vc.els(sd), vc.els(d), vc.els(s)
    n = len(sd)
    vc.prove("one rate per component", n == len(d))
    lo, hi, rlo, rhi = (cm.bro(vc, x, n) for x in (lo, hi, rlo, rhi))
    for i in range(n):
        # at a bound, limits that exclude zero and the bound contradict each other: the bound prevails
        free = vc.or_(vc.and_(lo[i] < s[i], s[i] < hi[i]), vc.and_(vc.le(rlo[i], 0, tol=0), vc.le(0, rhi[i], tol=0)))
        vc.prove("derivative within its limits", vc.implies(free, vc.and_(vc.le(rlo[i], sd[i]), vc.le(sd[i], rhi[i]))))
        vc.prove("at the lower bound never downwards", vc.implies(s[i] <= lo[i], vc.le(0, sd[i], tol=0)))
        vc.prove("at the upper bound never upwards", vc.implies(s[i] >= hi[i], vc.le(sd[i], 0, tol=0)))
        vc.prove("inside: model derivative clipped to its limits", vc.implies(vc.and_(lo[i] < s[i], s[i] < hi[i]), vc.eq(sd[i], vc.clip(d[i], rlo[i], rhi[i]))))


def before(vc, d, make, n, shape, j, step=None):
    """an earlier use of the dynamics, or of other ones with other limits"""
    def go(d):
        x, u = cm.jvec(vc, vc.vec("s'", n, mag=3), j), cm.jvec(vc, vc.vec("u'", 1), j)
        d.compute_state_dot(vc.real("t'"), x, u) if step is None else d.step(step, x, u)

    def other():
        lim = lambda name: vc.limits(name, n, mag=3) if shape != "scalar" else vc.scalar_limits(name, mag=3)
        go(make(*lim("lim'"), *lim("rate'")))
    cm.earlier(vc, lambda: go(d), other)


@contract("limited", [(n, s, j) for n in ("generic", 1, 2) for s in ("array", "scalar") for j in ("numpy", "jax")], time=60, samples=60)
def limited(vc, n, shape, backend):
    n = GEN if n == "generic" else n
    j = backend == "jax"
    if not vc.symbolic and j and vc.rng.random() < 0.8:
        vc.assume(False)
    d = vc.vec("d", n, mag=4)
    rlo, rhi = rate_limits(vc, n, shape, not vc.choice("rate limits may exclude zero", (True, False)))
    lo, hi = state_limits(vc, n, shape)
    s = at_bounds(vc, vc.vec("s", n, mag=3), lo, hi)
    if j and not vc.symbolic:
        import numpy
        f = lambda x: numpy.asarray(x, dtype=numpy.float32)  # noqa: E731
        s, d, rlo, rhi, lo, hi = f(s), f(d), f(rlo), f(rhi), f(lo), f(hi)
    make = lambda lo, hi, rlo, rhi: cm.raw_dynamics(vc, "BaseODESolverDynamics", n, lambda self, t, x, u: cm.jvec(vc, vc.copy(d), j), state_min=lo,
                                                    state_max=hi, state_dot_min=rlo, state_dot_max=rhi, use_jax=j)
    dyn = make(lo, hi, rlo, rhi)
    before(vc, dyn, make, n, shape, j)
    sd = dyn.compute_state_dot(vc.real("t"), cm.jvec(vc, vc.copy(s), j), vc.vec("u", 1))
    posts(vc, sd, d, s, lo, hi, rlo, rhi)


@contract("integrated", [(m, n) for m in cm.METHODS for n in ("generic", 2)], time=60, samples=24)
def integrated(vc, method, n):
    """the derivative integrated and reported is the limited one"""
    j = method == "RK45_JAX"
    if not vc.symbolic and j and vc.rng.random() < 0.9:
        vc.assume(False)
    n = GEN if n == "generic" else n
    d = vc.vec("d", n, mag=4)
    rlo, rhi = rate_limits(vc, n, "array")
    lo, hi = state_limits(vc, n, "array") if vc.symbolic or vc.choice("state limits", (True, False)) else (-vc.inf, vc.inf)
    s = vc.vec("s", n, mag=3)
    make = lambda lo, hi, rlo, rhi: cm.raw_dynamics(vc, "BaseODESolverDynamics", n, lambda self, t, x, u: cm.jvec(vc, vc.copy(d), j), state_min=lo,
                                                    state_max=hi, state_dot_min=rlo, state_dot_max=rhi, use_jax=j, integration_method=method)
    dyn = make(lo, hi, rlo, rhi)
    h = cm.duration(vc)
    before(vc, dyn, make, n, "array", j, cm.duration(vc))
    nxt, sd = dyn.step(h, cm.jvec(vc, vc.copy(s), j), vc.vec("u", 1))
    els = vc.els
    if vc.symbolic:
        calls = [c for c in vc.ghost if getattr(c, "solver", None)]
        vc.prove("one initial value problem", len(calls) == (0 if method == "Euler" else 1))
        for c in calls:
            posts(vc, c.rhs, d, c.probe_y, lo, hi, rlo, rhi)
        if method == "Euler":
            f = dyn.compute_state_dot(0, vc.copy(s), vc.vec("u", 1))
            for a, x, y, l_, h_ in zip(els(nxt), els(s), els(f), els(lo), els(hi)):
                vc.prove("Euler advances with the limited derivative", vc.eq(a, vc.clip(x + h * y, l_, h_)))
        # a start outside coinciding bounds is clipped back onto them after the derivative was taken: excluded
        vc.assume(vc.lt(lo, hi))
        return posts(vc, sd, d, nxt, lo, hi, rlo, rhi)
    import numpy
    vc.assume(bool(numpy.all(numpy.less(lo, hi))))
    if not j:
        posts(vc, sd, d, nxt, lo, hi, rlo, rhi)
    vc.assume(not numpy.any(numpy.isfinite(lo)) and not numpy.any(numpy.isfinite(hi)))
    lim = numpy.clip(d, rlo, rhi)
    vc.prove("constant derivative: state advances by step size times limited derivative", vc.eq(nxt, s + h * lim, tol=2e-3 if j else 1e-5))
    vc.prove("reported derivative is the limited one", vc.eq(sd, lim, tol=1e-5))


@contract("held", list(cm.METHODS), time=60, samples=16)
def held(vc, method):
    """a component held at its bound: what depends on it is integrated with the held value"""
    j = method == "RK45_JAX"
    if not vc.symbolic and j and vc.rng.random() < 0.8:
        vc.assume(False)
    a, k = vc.real("a", pos=True, lo=0.25, mag=3), vc.real("k", mag=2)
    side = vc.choice("bound", ("upper", "lower"))
    s, h = vc.vec("s", 2, mag=3), cm.duration(vc)
    if not vc.symbolic and j:
        vc.assume(h > 0.01 and h < 10)
    hi, lo = ([s[0], vc.inf], [-vc.inf, -vc.inf]) if side == "upper" else ([vc.inf, vc.inf], [s[0], -vc.inf])
    f = lambda x: (a if side == "upper" else -a, k * x[0])

    def raw(self, t, x, u):
        return cm.jvec(vc, vc.arr(f(x)), j) if not j or vc.symbolic else self.np.array(f(x), dtype="float32")
    dyn = cm.raw_dynamics(vc, "BaseODESolverDynamics", 2, raw, state_min=vc.arr(lo), state_max=vc.arr(hi), use_jax=j, integration_method=method)
    nxt, sd = dyn.step(h, cm.jvec(vc, vc.copy(s), j), vc.vec("u", 1))
    if vc.symbolic and method != "Euler":
        for c in vc.ghost:
            if getattr(c, "solver", None):
                posts(vc, c.rhs, f(c.probe_y), c.probe_y, lo, hi, -vc.inf, vc.inf)
        return
    want = s[1] + h * k * s[0]
    n = vc.els(nxt)
    vc.prove("the held component stays", vc.eq(n[0], s[0], tol=1e-5))
    vc.prove("what depends on it advances with the held value", vc.eq(n[1], want, tol=2e-4 * (1 + float(h)) if not vc.symbolic else 0))


@contract("own_rates", lambda: [m + (s,) for m in cm.models() for s in ("array", "scalar")], time=60, samples=30)
def own_rates(vc, mod, name, mode, n, k, shape):
    """each model of the package under limits of the user's"""
    rlo, rhi = rate_limits(vc, n, shape, not vc.choice("rate limits may exclude zero", (True, False)))
    lo, hi = state_limits(vc, n, shape)
    s = at_bounds(vc, vc.vec("s", n, mag=3), lo, hi)
    u = vc.vec("u", k, mag=2)
    vc.assume_defined("the model derivative is defined")
    lim = dict(state_min=lo, state_max=hi, state_dot_min=rlo, state_dot_max=rhi)
    free = {a: -vc.inf if a.endswith("min") else vc.inf for a in lim}
    sd = cm.model(vc, mod, name, mode, **lim).compute_state_dot(0, vc.copy(s), vc.copy(u))
    d = cm.model(vc, mod, name, mode, **free).compute_state_dot(0, vc.copy(s), vc.copy(u))
    vc.assume(vc.symbolic or all(abs(float(x)) < 1e30 for x in vc.els(d)))
    posts(vc, sd, d, s, lo, hi, rlo, rhi)


@contract("entity", lambda: [(m, n) for m, n in cm.vehicles()], time=60, samples=60)
def entity(vc, mod, name):
    ini = cm.init_values(vc, mod, name)
    e = cm.cls_of(vc, mod, name)(name="e", **ini)
    with cm.unlimited(vc):
        free = cm.cls_of(vc, mod, name)(name="free", **ini).dynamics
    vc.assume_defined("the model derivative is defined")
    d = e.dynamics
    s, u = e.state, vc.vec("u", len(e.control_default), mag=1)
    s = at_bounds(vc, s, d.state_min, d.state_max)
    lo, hi, rlo, rhi = d.state_min, d.state_max, d.state_dot_min, d.state_dot_max
    sd = d.compute_state_dot(0, s, u)
    posts(vc, sd, free.compute_state_dot(0, s, u), s, lo, hi, rlo, rhi)
