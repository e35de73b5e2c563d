"""C21 F-16 aerodynamic tables are looked up safely and interpolated correctly

Each coefficient function is under contract on every cell of its table: on the closed cell (the outer cells unbounded) the result equals the
(bi)linear interpolant of the published table (contracts/f16data.py), so breakpoint values, continuity across cells, linear extension outside
and absence of failures all follow for every real input; oddness in sideslip is a separate postcondition over two calls."""
from contracts.f16 import TOL, angle, bound, fn, inside, interp2, lin, pick, table
from vf.registry import contract

ASSUME = ["the published tables are the ones transcribed in contracts/f16data.py",
          "float arithmetic treated as real arithmetic (concrete cross-check with tolerance 1e-9 relative)"]
# second argument: breakpoint spacing and first row
TWO = {"cl": (5, 0), "cn": (5, 0), "cx": (12, -2), "cm": (12, -2), "dlda": (10, -3), "dldr": (10, -3), "dnda": (10, -3), "dndr": (10, -3)}


@contract("bilinear", [(n,) for n in sorted(TWO)], time=200, samples=80)
def bilinear(vc, name):
    T = table(vc, name)
    step, r0 = TWO[name]
    odd = name in ("cl", "cn")
    i = pick(vc, "alpha cell", 11)
    j = pick(vc, "row cell", len(T) - 1)
    neg = vc.choice("second angle negative", (False, True)) if odd else False
    al = angle(vc, "alpha", -10, 5, 11, i)
    # even extension: |beta| starts at zero, so the first cell is bounded below
    if odd and not vc.symbolic and j == 0:
        be = vc.real("beta", lo=0, hi=step)
    else:
        be = angle(vc, "beta", r0 * step, step, len(T) - 1, j)
    fa = inside(vc, al, -10, 5, 11, i)
    fb = inside(vc, be, r0 * step, step, len(T) - 1, j)
    if odd:
        vc.assume(be >= 0)
    got = fn(vc, name)(al, -be if neg else be)
    want = interp2(T, i, j, fa, fb)
    vc.prove("bilinear interpolant of the published table in the cell", vc.eq(got, -want if neg else want, tol=TOL, scale=bound(vc, fa, fb, fa * fb)))


@contract("odd", [("cl",), ("cn",)], time=100, samples=60)
def odd(vc, name):
    f = fn(vc, name)
    i = pick(vc, "alpha cell", 11)
    al = angle(vc, "alpha", -10, 5, 11, i)
    inside(vc, al, -10, 5, 11, i)
    be = vc.real("beta", mag=60)
    vc.prove("odd in sideslip", vc.eq(f(al, be), -f(al, -be), tol=TOL))
    vc.prove("zero without sideslip", vc.eq(f(al, 0.0), 0, tol=TOL))


@contract("breakpoints", [(n,) for n in sorted(TWO)], time=100, samples=60)
def breakpoints(vc, name):
    T = table(vc, name)
    step, r0 = TWO[name]
    f = fn(vc, name)
    i, j = pick(vc, "column", 12), pick(vc, "row", len(T))
    vc.prove("the table value at its breakpoint", vc.eq(f(-10.0 + 5 * i, float((r0 + j) * step)), T[j][i], tol=TOL))
    # integer-valued arguments are numbers too
    vc.prove("the table value at an integer breakpoint", vc.eq(f(-10 + 5 * i, (r0 + j) * step), T[j][i], tol=TOL))


@contract("cz", time=100, samples=120)
def cz(vc):
    T = table(vc, "cz")[0]
    i = pick(vc, "alpha cell", 11)
    al = angle(vc, "alpha", -10, 5, 11, i)
    fa = inside(vc, al, -10, 5, 11, i)
    be, el = vc.real("beta", mag=60), vc.real("el", mag=30)
    b = be / vc.num("57.3")
    want = lin(T[i], T[i + 1], fa) * (1 - b * b) - vc.num(".19") * el / 25
    vc.prove("linear interpolant, sideslip factor and elevator term", vc.eq(fn(vc, "cz")(al, be, el), want, tol=TOL, scale=bound(vc, fa, fa * b * b, el)))


@contract("cy", time=30, samples=60)
def cy(vc):
    be, ail, rdr = vc.real("beta", mag=60), vc.real("ail", mag=30), vc.real("rdr", mag=30)
    vc.prove("linear in sideslip, aileron and rudder",
             vc.eq(fn(vc, "cy")(be, ail, rdr), vc.num("-.02") * be + vc.num(".021") * ail / 20 + vc.num(".086") * rdr / 30, tol=TOL, scale=bound(vc, be, ail, rdr)))


@contract("dampp", time=100, samples=120)
def dampp(vc):
    T = table(vc, "dampp")
    i = pick(vc, "alpha cell", 11)
    al = angle(vc, "alpha", -10, 5, 11, i)
    fa = inside(vc, al, -10, 5, 11, i)
    d = fn(vc, "dampp")(al)
    vc.prove("nine damping derivatives", len(d) == 9)
    vc.prove("linear interpolants of the published damping derivatives",
             vc.eq(list(vc.els(d)), [lin(r[i], r[i + 1], fa) for r in T], tol=TOL, scale=None if vc.symbolic else 50 * abs(float(fa))))


@contract("repeatable", [(n,) for n in sorted(TWO) + ["cz", "dampp"]], time=60, samples=15)
def repeatable(vc, name):
    """no call leaves anything behind: the same call after another one gives the same value"""
    f = fn(vc, name)
    n = {"cz": 3, "dampp": 1}.get(name, 2)
    i = pick(vc, "alpha cell", 11)
    al = angle(vc, "alpha", -10, 5, 11, i)
    inside(vc, al, -10, 5, 11, i)
    args = [al] + [3.0] * (n - 1)
    first = vc.copy(vc.els(f(*args)))
    r = f(*([vc.q(-7, 2)] + [-11.0] * (n - 1)))
    if name == "dampp":
        r[0] = 1e9
    vc.prove("a call does not depend on earlier calls", vc.same(first, vc.els(f(*args))))
