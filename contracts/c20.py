"""C20 linear, point-mass and sun models implement their stated equations

Postconditions of compute_state_dot and of an explicit Euler step for arbitrary matrices, user functions, states, controls and physical constants;
ownership of the matrices and rejection of wrong shapes are postconditions of the constructor."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["dx/dt = A x + B u: any matrix sizes (the product with a vector is an unknown function of matrix and vector) and all entries spelled out up to 4 states and 3 controls; the shape checks are proved for all sizes of up to three-dimensional arrays",
          "positive mass; state and rate limits are C04, C06"]
DIMS = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (1, 3), (3, 1)]
BACK = ("numpy", "jax")


def mat(vc, name, n, m, whole=False):
    if whole:
        return vc.np.array([[vc.int("%s%d%d" % (name, i, j), -9, 9) for j in range(m)] for i in range(n)], dtype=vc.np.int64)
    return vc.np.array([[vc.real("%s%d%d" % (name, i, j), mag=2) for j in range(m)] for i in range(n)], dtype=vc.np.float64)


def times(vc, A, x):
    n, m = len(A), len(A[0])
    return [sum((A[i][j] * x[j] for j in range(1, m)), A[i][0] * x[0]) for i in range(n)]


def rows(A):
    return [[A[i, j] for j in range(A.shape[1])] for i in range(A.shape[0])]


def rare_jax(vc, backend):
    if not vc.symbolic and backend == "jax" and vc.rng.random() < 0.8:
        vc.assume(False)
    return dict(use_jax=True, integration_method="RK45_JAX") if backend == "jax" else dict(integration_method="Euler")


@contract("linear", [(n, m, b) for n, m in DIMS for b in BACK], time=60, samples=30)
def linear(vc, n, m, backend):
    kw = rare_jax(vc, backend)
    w = vc.choice("matrices of", ("floats", "integers")) == "integers"
    A, B = mat(vc, "A", n, n, w), mat(vc, "B", n, m, w)
    a, b = rows(vc.copy(A)), rows(vc.copy(B))
    d = vc.mod("base_models").BaseLinearODESolverDynamics(A=A, B=B, **kw)
    vc.prove("the caller's matrices are not modified", vc.and_(vc.same(vc.els(A), [x for r in a for x in r]), vc.same(vc.els(B), [x for r in b for x in r])))
    if vc.choice("caller changes the matrices", (False, True)):
        for i in range(n):
            for j in range(n):
                A[i, j] = 5 + i - j
            for j in range(m):
                B[i, j] = 7
    s, u = vc.vec("s", n, mag=3), vc.vec("u", m, mag=3)
    want = [x + y for x, y in zip(times(vc, a, vc.els(s)), times(vc, b, vc.els(u)))]
    j = backend == "jax"
    t = vc.real("t", lo=0, mag=10)
    vc.prove("dx/dt = A x + B u", vc.eq(list(vc.els(d.compute_state_dot(t, cm.jvec(vc, s, j), cm.jvec(vc, u, j)))), want, tol=1e-4, scale=None if vc.symbolic else max(abs(float(v)) for v in vc.els(s) + vc.els(u)) * 20))
    if not j:
        h = cm.duration(vc)
        x, xd = d.step(h, vc.copy(s), vc.copy(u))
        vc.prove("an Euler step of A x + B u", vc.eq(x, [p + h * q for p, q in zip(vc.els(s), want)]))
        # evaluating again, after a step, still the same matrices
        vc.prove("still A x + B u", vc.eq(d.compute_state_dot(0, s, u), want))


@contract("linear_any", BACK, time=60, samples=30)
def linear_any(vc, backend):
    """A and B of any size: the derivative is the sum of the two products, whatever the matrices' products are"""
    kw = rare_jax(vc, backend)
    j = backend == "jax"
    if vc.symbolic:
        from vf import npshim
        n, m = vc.int("n", 1), vc.int("m", 1)
        A, B = npshim.GMat("A", n, n), npshim.GMat("B", n, m)
        prod = lambda M, x: vc.els(M @ x)
        a, b = A.copy(), B.copy()
        s, u = vc.vec("s", "generic"), vc.vec("u", "generic")
    else:
        n, m = vc.rng.randint(1, 9), vc.rng.randint(1, 7)
        A, B = mat(vc, "A", n, n), mat(vc, "B", n, m)
        a, b = rows(vc.copy(A)), rows(vc.copy(B))
        prod = lambda M, x: times(vc, M, vc.els(x))
        s, u = vc.vec("s", n, mag=3), vc.vec("u", m, mag=3)
    d = vc.mod("base_models").BaseLinearODESolverDynamics(A=A, B=B, **kw)
    if vc.choice("caller changes the matrices", (False, True)):
        if vc.symbolic:
            A.overwritten()
            B.overwritten()
        else:
            A[...] = 5
            B[...] = 7
    want = [x + y for x, y in zip(prod(a, s), prod(b, u))]
    t = vc.real("t", lo=0, mag=10)
    scale = None if vc.symbolic else max(abs(float(v)) for v in vc.els(s) + vc.els(u)) * 40
    vc.prove("dx/dt = A x + B u", vc.eq(list(vc.els(d.compute_state_dot(t, cm.jvec(vc, s, j), cm.jvec(vc, u, j)))), want, tol=1e-4, scale=scale))
    if not j:
        h = cm.duration(vc)
        x, xd = d.step(h, vc.copy(s), vc.copy(u))
        vc.prove("an Euler step of A x + B u", vc.eq(vc.els(x), [p + h * q for p, q in zip(vc.els(s), want)]))
        vc.prove("still A x + B u", vc.eq(vc.els(d.compute_state_dot(0, s, u)), want))
        vc.prove("the reported derivative is A x' + B u", vc.eq(vc.els(xd), [p + q for p, q in zip(prod(a, x), prod(b, u))], scale=scale, tol=1e-4))


class Shaped:
    """a matrix given only by its (arbitrary) shape"""

    def __init__(self, *shape):
        self.shape, self.ndim = shape, len(shape)

    def copy(self):
        return Shaped(*self.shape)

    def __len__(self):
        return self.shape[0]

    def _vf_shaped(self):
        return self


@contract("shapes", [(a, b) for a in (1, 2, 3) for b in (1, 2, 3)], time=20, samples=40)
def shapes(vc, na, nb):
    """matrices of arbitrary size: exactly the square A with as many rows as B, both two-dimensional, are accepted"""
    c = vc.mod("base_models").BaseLinearODESolverDynamics
    hi = None if vc.symbolic else 4
    sa = [vc.int("a%d" % i, 1, hi) for i in range(na)]
    sb = [vc.int("b%d" % i, 1, hi) for i in range(nb)]
    if na == 2 and not vc.symbolic and vc.rng.random() < 0.3 and "a1" not in vc.env:
        sa[1] = vc.used["a1"] = sa[0]
    Z = (lambda s: Shaped(*s)) if vc.symbolic else (lambda s: vc.np.zeros(tuple(s)))
    ok = vc.and_(na == 2, nb == 2, *([sa[0] == sa[1], sa[0] == sb[0]] if na == nb == 2 else []))
    err = vc.raises(("AssertionError", "ValueError", "TypeError", "IndexError"), lambda: c(A=Z(sa), B=Z(sb)))
    vc.prove("accepted exactly when A is square and B has as many rows", vc.iff(not err, ok))


def user_affine(vc, n, m, f, g, **kw):
    base = vc.mod("base_models").BaseControlAffineODESolverDynamics

    class Dyn(base):
        def state_transition_system(self, state):
            return f(state)

        def state_transition_input(self, state):
            return g(state)
    return Dyn(**kw)


@contract("affine", [(n, m, b) for n, m in ((1, 1), (2, 1), (2, 2), (3, 2)) for b in BACK], time=60, samples=30)
def affine(vc, n, m, backend):
    """arbitrary functions f, g of the state"""
    kw = rare_jax(vc, backend)
    j = backend == "jax"
    if vc.symbolic:
        F = lambda x: [vc.uf("f%d" % i, x) for i in range(n)]
        G = lambda x: [[vc.uf("g%d%d" % (i, k), x) for k in range(m)] for i in range(n)]
        d = user_affine(vc, n, m, lambda x: vc.arr(F(x)), lambda x: vc.np.array(G(x)), **kw)
    else:
        import numpy
        c = [[vc.real("c%d%d" % (i, k), mag=1) for k in range(m)] for i in range(n)]
        F = lambda x: [float(x[i]) * c[i][0] + float(x[0]) ** 2 for i in range(n)]
        G = lambda x: [[c[i][k] + float(x[0]) for k in range(m)] for i in range(n)]
        if j:
            import jax.numpy as jnp
            d = user_affine(vc, n, m, lambda x: jnp.array([x[i] * c[i][0] + x[0] ** 2 for i in range(n)]), lambda x: jnp.array([[c[i][k] + x[0] for k in range(m)] for i in range(n)]), **kw)
        else:
            d = user_affine(vc, n, m, lambda x: numpy.array(F(x)), lambda x: numpy.array(G(x)), **kw)
    s, u = vc.vec("s", n, mag=2), vc.vec("u", m, mag=2)
    want = [x + y for x, y in zip(F(s), times(vc, G(s), vc.els(u)))]
    sc = None if vc.symbolic else max(abs(float(v)) for v in want + vc.els(s) + vc.els(u)) * 20 + float(s[0]) ** 2
    vc.prove("dx/dt = f(x) + g(x) u", vc.eq(list(vc.els(d.compute_state_dot(0, cm.jvec(vc, s, j), cm.jvec(vc, u, j)))), want, tol=1e-4, scale=sc))
    if not j:
        h = cm.duration(vc)
        x, _ = d.step(h, vc.copy(s), vc.copy(u))
        vc.prove("an Euler step of f(x) + g(x) u", vc.eq(x, [p + h * q for p, q in zip(vc.els(s), want)], scale=sc))


@contract("affine_any", BACK, time=60, samples=20)
def affine_any(vc, backend):
    """any number of states and controls"""
    kw = rare_jax(vc, backend)
    j = backend == "jax"
    if vc.symbolic:
        from vf import npshim
        f = lambda x: npshim.varr(vc.uf("f", x))
        g = lambda x: npshim.GMat("g", vc.int("n", 1), vc.int("m", 1), x)
        s, u = vc.vec("s", "generic"), vc.vec("u", "generic")
        want = lambda x: [p + q for p, q in zip(vc.els(f(x)), vc.els(g(x) @ u))]
        F, G = f, g
    else:
        n, m = vc.rng.randint(1, 8), vc.rng.randint(1, 6)
        c = [[vc.real("c%d%d" % (i, k), mag=1) for k in range(m)] for i in range(n)]
        f = lambda x: [x[i] * c[i][0] + x[0] ** 2 for i in range(n)]
        g = lambda x: [[c[i][k] + x[0] for k in range(m)] for i in range(n)]
        s, u = vc.vec("s", n, mag=2), vc.vec("u", m, mag=2)
        want = lambda x: [p + q for p, q in zip(f(x), times(vc, g(x), vc.els(u)))]
        xp = vc.np
        if j:
            import jax.numpy as xp
        F, G = lambda x: xp.array(f(x)), lambda x: xp.array(g(x))
    d = user_affine(vc, None, None, F, G, **kw)
    w = want(s)
    sc = None if vc.symbolic else max(abs(float(v)) for v in w + vc.els(s) + vc.els(u)) * 40 + float(s[0]) ** 2
    vc.prove("dx/dt = f(x) + g(x) u", vc.eq(list(vc.els(d.compute_state_dot(0, cm.jvec(vc, s, j), cm.jvec(vc, u, j)))), w, tol=1e-4, scale=sc))
    if not j:
        h = vc.real("h", pos=True, hi=2, mag=1)
        x, xd = d.step(h, vc.copy(s), vc.copy(u))
        vc.prove("an Euler step of f(x) + g(x) u", vc.eq(vc.els(x), [p + h * q for p, q in zip(vc.els(s), w)], scale=sc))
        if vc.symbolic or max(abs(float(v)) for v in vc.els(x)) < 50:
            vc.prove("the reported derivative is f(x') + g(x') u", vc.eq(vc.els(xd), want(x), scale=None if vc.symbolic else sc * 100, tol=1e-4))


INT = ("Integrator1d", "Integrator2d", "Integrator3d")


@contract("point_mass", [(n, c) for n in INT for c in ("given", "mass only", "defaults")], time=60, samples=60)
def point_mass(vc, name, conf):
    kw = cm.cfg(vc, "integrators", name)
    m, c = kw["m"], kw["damping"]
    if conf != "given":
        del kw["damping"]
        c = 0
    if conf == "defaults":
        kw, m = {}, 1
    with cm.unlimited(vc):
        e = cm.make(vc, "integrators", name, integration_method="Euler", **kw)
    k = int(name[-2])
    names = ["thrust_" + a for a in "xyz"[:k]]
    vc.prove("one thruster per modelled axis", sorted(e.control_map) == names)
    u = vc.np.zeros(k)
    f = {a: vc.real("f_" + a, mag=2) for a in names}
    for a in names:
        u[e.control_map[a]] = f[a]
    d = cm.at(vc, e, cm.deriv(vc, e, u))
    want = {}
    for a in "xyz"[:k]:
        want[a] = getattr(e, a + "_dot")
        want[a + "_dot"] = f["thrust_" + a] / m - c * getattr(e, a + "_dot")
    for q, w in want.items():
        vc.prove("thrust over mass minus damping times velocity, per axis", vc.eq(getattr(d, q), w, tol=1e-5))
    for a in "xyz"[k:]:
        vc.prove("coordinates not modelled stay zero", vc.and_(vc.eq(getattr(e, a), 0), vc.eq(getattr(e, a + "_dot"), 0)))
    h = cm.duration(vc)
    old = {q: getattr(e, q) for q in want}
    e.step(h, dict(f))
    for q, w in want.items():
        vc.prove("an Euler step of the point mass", vc.eq(getattr(e, q), old[q] + h * w, tol=1e-5))


@contract("generate", [("1d",), ("2d",), ("3d",)], time=30, samples=30)
def generate(vc, mode):
    m, c = vc.real("m", pos=True, mag=20), vc.real("c", lo=0, mag=1)
    g = vc.mod("integrators").generate_dynamics_matrices
    given = vc.choice("damping given", (True, False))
    A, B = g(m, c, mode) if given else g(m=m, mode=mode)
    c = c if given else 0
    k = int(mode[0])
    s, u = vc.vec("s", 2 * k, mag=3), vc.vec("u", k, mag=3)
    want = [s[k + i] for i in range(k)] + [u[i] / m - c * s[k + i] for i in range(k)]
    vc.prove("matrices of the point mass", vc.eq(A @ s + B @ u, want, tol=1e-9))
    vc.prove("unknown mode is rejected", vc.raises(("AssertionError", "ValueError"), lambda: g(m, c, "4d")))


@contract("sun", [(m,) for m in cm.METHODS], time=60, samples=40)
def sun(vc, method):
    if method == "RK45_JAX" and not vc.symbolic and vc.rng.random() < 0.8:
        vc.assume(False)
    kw = dict(integration_method=method, use_jax=method == "RK45_JAX")
    n = vc.real("n", mag=0.01) if vc.choice("mean motion", ("given", "default")) == "given" else None
    c = cm.cls_of(vc, "cwh.sun_model", "SunEntity")
    e = c(name="s", theta=vc.real("theta", mag=3), **({} if n is None else {"n": n}), **kw)
    n = vc.num("0.001027") if n is None else n
    t0 = e.theta
    d = e.dynamics.compute_state_dot(vc.real("t", lo=0, mag=100), cm.jvec(vc, e.state, method == "RK45_JAX"), cm.jvec(vc, vc.np.zeros(0), method == "RK45_JAX"))
    vc.prove("the sun angle advances at the mean motion", vc.eq(vc.els(d)[0], n, tol=1e-6) if len(vc.els(d)) == 1 else False)
    h = cm.duration(vc)
    e.step(h)
    if method == "Euler" or not vc.symbolic:
        vc.prove("after a step the angle has advanced by mean motion times duration", vc.eq(e.theta, t0 + n * h, tol=1e-5))
    vc.prove("reported derivative is the mean motion", vc.eq(vc.els(e.state_dot)[0], n, tol=1e-6))
    for k in range(2):
        e.step(h)
    if method == "Euler" or not vc.symbolic:
        vc.prove("after more steps too", vc.eq(e.theta, t0 + 3 * n * h, tol=1e-5))
