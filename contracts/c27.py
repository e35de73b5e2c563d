"""C27 the fixed-step Euler solver advances monotonically to exactly the end time

Euler.step / Euler.dense_output are executed with an uninterpreted derivative function.  `steps` follows the solver from construction through n steps;
`induction` starts one step from an arbitrary running state, which carries the statement to any number of steps; `interpolant` is about the function
returned by dense_output, evaluated at once and after further steps."""
from vf.registry import contract

ASSUME = ["initial state is a floating-point array; the derivative function does not modify its arguments", "end time after start time, step size > 0 (both checked by the constructor)",
          "the derivative function is an uninterpreted function of time and state", "induction over the public fields t, y, status (the solver has no other state that step reads)"]
N = 2
TOL = 1e-9


def derivative(vc, log=None, shared=None):
    if vc.symbolic:
        f = lambda t, y: [vc.uf("f%d" % i, t, y) for i in range(N)]
    else:
        a = [vc.rng.uniform(-2, 2) for _ in range(8)]
        f = lambda t, y: [a[0] * y[0] + a[1] * y[1] + a[2] * t + a[6], a[3] * y[0] - a[4] * y[1] + a[5] * t + a[7]]

    def der(t, y):
        if log is not None:
            log.append((t, list(vc.copy(vc.els(y)))))
        r = vc.arr(f(t, vc.els(y)))
        if shared is not None:   # a derivative function may reuse its output buffer
            shared[:] = r
            return shared
        return r
    return der, f


def times(vc):
    t0 = vc.real("t0", mag=3)
    span, h = vc.real("span", pos=True, mag=3), vc.real("h", pos=True, mag=2)
    if not vc.symbolic:
        k = vc.rng.choice((0, 0, 1, 2, 3))
        h = span / k if k else max(h, span / 40)
    return t0, t0 + span, h


def advance(vc, t, h, tend, tol=None):
    """the specified next time"""
    n = t + h
    return vc.ite(n + (vc.num("1e-9") if tol is None else tol) >= tend, tend, n)


@contract("steps", [(n,) for n in (1, 2, 3, 4)], time=90, samples=120)
def steps(vc, n):
    log = []
    der, f = derivative(vc, log, vc.arr([0.0] * N) if vc.choice("derivative reuses its buffer", (False, True)) else None)
    t0, tend, h = times(vc)
    if vc.symbolic or n > 1:
        y0 = vc.vec("y", N)
    else:
        y0 = vc.vec("y", N)
    tol = None
    kw = {}
    if vc.choice("time tolerance given", (False, True)):
        tol = vc.real("tol", lo=0 if vc.symbolic else 1e-10, hi=1e-3)
        if not vc.symbolic and vc.rng.random() < 0.4:     # very short integrations need a tolerance to match
            t0, small = 0.0, 10 ** vc.rng.uniform(-15, -1)
            tend, h, tol = tend * 0 + small * vc.rng.uniform(1, 9), small, tol * small / 10
        kw["time_tol"] = tol
    start = vc.copy(vc.els(y0))
    s = vc.mod("external.aerobench.util").Euler(der, t0, y0, tend, step=h, **kw)
    vc.prove("starts at the start", vc.and_(vc.eq(s.t, t0), vc.eq(list(vc.els(s.y)), list(start)), s.status == "running"))
    t, y = t0, list(start)
    rounds = n if vc.symbolic else n + (50 if n == 4 else 0)
    for i in range(rounds):
        done = s.status == "finished"
        vc.prove("status says whether the end was reached", s.status in ("running", "finished"))
        seen = list(vc.copy(vc.els(s.y)))
        calls = len(log)
        s.step()
        if done:
            vc.prove("nothing changes once finished", vc.and_(vc.same(s.t, t), vc.same(vc.els(s.y), seen), s.status == "finished", len(log) == calls))
            continue
        vc.prove("the derivative is evaluated at the old time and state", vc.and_(len(log) > calls, *[vc.and_(vc.eq(a, t), vc.eq(b, seen)) for a, b in log[calls:]]))
        nt = advance(vc, t, h, tend, tol)
        vc.prove("time advances by the step, shortened only to land exactly on the end", vc.eq(s.t, nt, tol=1e-12) if vc.symbolic else abs(s.t - nt) <= 1e-12 * (abs(t0) + abs(tend)))
        vc.prove("time advances, never beyond the end", vc.and_(s.t > t, s.t <= tend))
        d = f(t, seen)
        vc.prove("state changes by elapsed time times the old derivative", vc.eq(list(vc.els(s.y)), [a + (s.t - t) * b for a, b in zip(seen, d)], tol=TOL))
        vc.prove("finished exactly at the end", vc.iff(s.status == "finished", s.t == tend))
        t, y = s.t, seen
    vc.prove("the caller's initial state is not modified", vc.same(vc.els(y0), start))


@contract("whole_start", time=60, samples=60)
def whole_start(vc):
    """an initial state of integers is either refused (the state is updated in place) or advanced exactly"""
    der, f = derivative(vc)
    t0, tend, h = times(vc)
    y0 = vc.ints("y", N)
    start = list(vc.els(vc.copy(y0)))
    try:
        s = vc.mod("external.aerobench.util").Euler(der, t0, y0, tend, step=h)
        s.step()
    except TypeError:
        return vc.prove("the caller's initial state is not modified", vc.same(list(vc.els(y0)), start))
    nt = advance(vc, t0, h, tend)
    vc.prove("state changes by elapsed time times the old derivative", vc.eq(list(vc.els(s.y)), [a + (nt - t0) * b for a, b in zip(start, f(t0, start))], tol=TOL))


@contract("end", time=60, samples=60)
def end(vc):
    """one step suffices when it covers the whole span; a span of exactly n steps takes n steps"""
    der, f = derivative(vc)
    t0 = vc.real("t0", mag=3)
    h = vc.real("h", pos=True, mag=2) if vc.symbolic else vc.real("h", lo=0.01, hi=2)
    if vc.symbolic:
        vc.assume(h > vc.num("2e-9"))
    n = vc.choice("steps", (1, 2, 3, 4))
    s = vc.mod("external.aerobench.util").Euler(der, t0, vc.vec("y", N), t0 + n * h, step=h)
    for i in range(n):
        vc.prove("running before the last step", s.status == "running")
        s.step()
    vc.prove("a span of n steps is finished after n steps, exactly at the end", vc.and_(s.status == "finished", s.t == t0 + n * h))


@contract("induction", time=60, samples=60)
def induction(vc):
    log = []
    der, f = derivative(vc, log)
    t0, tend, h = times(vc)
    s = vc.mod("external.aerobench.util").Euler(der, t0, vc.vec("y0", N), tend, step=h)
    s.step()
    t = vc.real("t", mag=3) if vc.symbolic else t0 + (tend - t0) * vc.rng.random() * 0.9
    vc.assume(vc.and_(t >= t0, t < tend))
    y = vc.vec("y", N)
    seen = list(vc.copy(vc.els(y)))
    s.t, s.y, s.status = t, y, "running"
    calls = len(log)
    s.step()
    nt = advance(vc, t, h, tend)
    d = f(t, seen)
    # soft: an implementation with more state than the public fields is not refuted by this argument
    vc.prove("from any running state: time", vc.eq(s.t, nt, tol=1e-12), soft=True)
    vc.prove("from any running state: time advances, never beyond the end", vc.and_(s.t > t, s.t <= tend), soft=True)
    vc.prove("from any running state: state", vc.eq(list(vc.els(s.y)), [a + (nt - t) * b for a, b in zip(seen, d)], tol=TOL), soft=True)
    vc.prove("from any running state: status", vc.iff(s.status == "finished", s.t == tend), soft=True)
    vc.prove("from any running state: the derivative is evaluated at the old time and state", vc.and_(*[vc.and_(vc.eq(a, t), vc.eq(b, seen)) for a, b in log[calls:]]), soft=True)
    o = s.dense_output()
    x = vc.real("x", mag=3)
    k = (x - t) / (s.t - t)
    vc.prove("from any running state: the interpolant is the straight line of the step", vc.eq(list(vc.els(o(x))), [a + k * (b - a) for a, b in zip(seen, vc.els(s.y))], tol=1e-7, scale=None if vc.symbolic else 1 / (s.t - t)), soft=True)


@contract("interpolant", [(a, b) for a in (1, 2, 3) for b in (0, 1, 2)], time=60, samples=60)
def interpolant(vc, before, after):
    der, f = derivative(vc)
    t0, tend, h = times(vc)
    s = vc.mod("external.aerobench.util").Euler(der, t0, vc.vec("y", N), tend, step=h)
    vc.prove("no interpolant before the first step", vc.raises(("AssertionError", "TypeError", "ValueError"), s.dense_output))
    for i in range(before):
        ta, ya = s.t, list(vc.copy(vc.els(s.y)))
        if s.status == "running":
            start = ta, ya
        s.step()
    ta, ya = start
    tb, yb = s.t, list(vc.copy(vc.els(s.y)))
    o = s.dense_output()
    if vc.choice("the caller evaluated it before", (False, True)):
        r = o(ta)
        r[:] = 55.0
    for i in range(after):
        s.step()
        if after == 2:
            s.dense_output()
    sc = None if vc.symbolic else 1 / (tb - ta)
    vc.prove("reproduces the start of its step", vc.eq(list(vc.els(o(ta))), ya, tol=TOL, scale=sc))
    vc.prove("reproduces the end of its step", vc.eq(list(vc.els(o(tb))), yb, tol=1e-7, scale=sc))
    x = vc.real("x", mag=3)
    k = (x - ta) / (tb - ta)
    vc.prove("linear in between", vc.eq(list(vc.els(o(x))), [a + k * (b - a) for a, b in zip(ya, yb)], tol=1e-7, scale=sc))


@contract("rejected", time=20, samples=10)
def rejected(vc):
    der, _ = derivative(vc)
    E = vc.mod("external.aerobench.util").Euler
    y = vc.vec("y", N)
    h = vc.real("h", hi=0, mag=2)
    vc.prove("a step size that is not positive is rejected", vc.raises(("AssertionError", "ValueError"), lambda: E(der, 0.0, y, 1.0, step=h)))
    t = vc.real("t", hi=0, mag=2)
    vc.prove("an end that is not after the start is rejected", vc.raises(("AssertionError", "ValueError"), lambda: E(der, 0.0, y, t, step=0.1)))
