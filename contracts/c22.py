"""C22 F-16 engine and air data behave physically over the whole envelope

Postconditions of tgear, rtau, pdot, thrust and adc for every real input of their domains.  thrust is specified cell by cell against the published
tables (trilinear in altitude, Mach number and power), pdot both by its formula and by the physical guarantees derived from it."""
from contracts.f16 import LL, TOL, bound, fn, inside, interp2, pick, table
from vf.registry import contract

ASSUME = ["power 0..100 and throttle 0..1 for the invariance statements", "air data: altitude below the model's ceiling (temperature factor positive, ~142247 ft)",
          "x**4.14 is one uninterpreted function of its base; float arithmetic treated as real arithmetic"]


@contract("tgear", time=20, samples=60)
def tgear(vc):
    f = fn(vc, "tgear")
    x = vc.real("throttle", mag=1)
    low = vc.choice("below the military setting", (True, False))
    if low:
        vc.assume(x <= vc.num(".77"))
        vc.prove("linear gearing below .77", vc.eq(f(x), vc.num("64.94") * x, tol=TOL))
    else:
        vc.assume(x > vc.num(".77"))
        vc.prove("linear gearing above .77", vc.eq(f(x), vc.num("217.38") * x - vc.num("117.38"), tol=TOL))
    z = vc.real("z", lo=0, hi=1)
    vc.prove("throttle 0..1 commands power 0..100", vc.and_(vc.le(0, f(z), tol=TOL), vc.le(f(z), 100, tol=TOL)))
    # the published gearing steps down by 0.0012 % at .77
    y = vc.real("y", lo=0, hi=1)
    vc.prove("non-decreasing but for the published 0.0013 step at the break", vc.implies(z <= y, vc.le(f(z), f(y) + vc.num(".0013"))))
    vc.prove("end points", vc.and_(vc.eq(f(0.0), 0, tol=TOL), vc.eq(f(1.0), 100, tol=TOL)))


@contract("rtau", time=20, samples=60)
def rtau(vc):
    f = fn(vc, "rtau")
    dp = vc.real("dp", mag=60)
    r = f(dp)
    spec = vc.ite(dp <= 25, 1, vc.ite(dp >= 50, vc.q(1, 10), vc.num("1.9") - vc.num(".036") * dp))
    vc.prove("reciprocal time constant", vc.eq(r, spec, tol=TOL))
    vc.prove("between 0.1 and 1", vc.and_(vc.le(vc.num(".1"), r, tol=TOL), vc.le(r, 1, tol=TOL)))
    e = vc.real("dp2", mag=60)
    vc.prove("non-increasing in the power error", vc.implies(dp <= e, vc.le(f(e), r, tol=TOL)))


def lag(vc, dp):
    return vc.ite(dp <= 25, 1, vc.ite(dp >= 50, vc.q(1, 10), vc.num("1.9") - vc.num(".036") * dp))


@contract("pdot", time=60, samples=150)
def pdot(vc):
    f = fn(vc, "pdot")
    p3, p1 = vc.real("power", mag=100), vc.real("command", mag=100)
    hi1, hi3 = vc.choice("command in the afterburner range", (False, True)), vc.choice("power in the afterburner range", (False, True))
    vc.assume(p1 >= 50 if hi1 else p1 < 50)
    vc.assume(p3 >= 50 if hi3 else p3 < 50)
    p2 = p1 if hi1 == hi3 else 60 if hi1 else 40
    t = 5 if hi3 else lag(vc, p2 - p3)
    r = f(p3, p1)
    vc.prove("rate = reciprocal time constant times the distance to the intermediate target", vc.eq(r, t * (p2 - p3), tol=TOL))
    vc.prove("increases below the commanded power", vc.implies(p3 < p1, r > 0))
    vc.prove("decreases above the commanded power", vc.implies(p3 > p1, r < 0))
    vc.prove("rests when the commanded power is reached", vc.implies(p3 == p1, r == 0))


@contract("pdot_bounds", time=60, samples=100)
def pdot_bounds(vc):
    f = fn(vc, "pdot")
    p3, p1 = vc.real("power", lo=0, hi=100), vc.real("command", lo=0, hi=100)
    r = f(p3, p1)
    vc.prove("bounded rate", vc.and_(vc.le(-300, r, tol=TOL), vc.le(r, 250, tol=TOL)))
    vc.prove("below the afterburner the rate is at most 60 %/s up", vc.implies(p3 < 50, vc.and_(vc.le(r, 60, tol=TOL), vc.le(-50, r, tol=TOL))))
    h = vc.real("h", lo=0, hi=0.2)
    nxt = p3 + h * r
    vc.prove("power stays within 0..100", vc.and_(vc.le(0, nxt, tol=TOL), vc.le(nxt, 100, tol=TOL)))
    vc.prove("at the ends power does not leave the range", vc.and_(f(0.0, p1) >= 0, f(100.0, p1) <= 0))
    th = vc.real("throttle", lo=0, hi=1)
    c = fn(vc, "tgear")(th)
    vc.prove("commanded from the throttle, at the ends power does not leave the range", vc.and_(f(0.0, c) >= 0, vc.le(f(100.0, c), 0, tol=TOL)))


def thrust_case(vc, i, m, lowalt):
    if vc.symbolic:
        alt, mach = vc.real("alt"), vc.real("mach")
    else:
        alt = vc.real("alt", lo=10000 * i, hi=10000 * (i + 1) + (30000 if i == 4 else 0))
        mach = vc.real("mach", lo=0.2 * m - (1 if m == 0 else 0), hi=0.2 * (m + 1) + (1 if m == 4 else 0))
    if i == 0:
        vc.assume(alt >= 0)
    fa = inside(vc, alt, 0, 10000, 5, i)
    fm = inside(vc, mach * 5, 0, 1, 5, m)
    return alt, mach, fa, fm


@contract("thrust", [(i,) for i in range(5)], time=120, samples=60)
def thrust(vc, i):
    f = fn(vc, "thrust")
    m = pick(vc, "Mach cell", 5)
    alt, mach, fa, fm = thrust_case(vc, i, m, False)
    power = vc.real("power", mag=100)
    ab = vc.choice("afterburner", (False, True))
    vc.assume(power >= 50 if ab else power <= 50)
    # tables are rows over Mach, columns over altitude
    at = lambda name: interp2(table(vc, name), i, m, fa, fm)
    mil = at("thrust_mil")
    w = mil + (at("thrust_max") - mil) * (power - 50) / 50 if ab else at("thrust_idle") + (mil - at("thrust_idle")) * power / 50
    vc.prove("trilinear interpolant of the published tables", vc.eq(f(power, alt, mach), w, tol=TOL, scale=None if vc.symbolic else 3e5 * (1 + abs(power) * (1 + abs(mach)))))
    vc.prove("military thrust at 50 %", vc.eq(f(50.0, alt, mach), mil, tol=TOL, scale=bound(vc, 1e5 * (1 + abs(mach)))))


@contract("thrust_below_sea_level", time=60, samples=60)
def below(vc):
    f = fn(vc, "thrust")
    m = pick(vc, "Mach cell", 5)
    alt = vc.real("alt", hi=0, mag=3000)
    vc.assume(alt < 0)
    _, mach, _, fm = thrust_case(vc, 0, m, True)
    power = vc.real("power", mag=100)
    ab = vc.choice("afterburner", (False, True))
    vc.assume(power >= 50 if ab else power <= 50)
    at = lambda name: interp2(table(vc, name), 0, m, vc.num(".000001"), fm)
    mil = at("thrust_mil")
    w = mil + (at("thrust_max") - mil) * (power - 50) / 50 if ab else at("thrust_idle") + (mil - at("thrust_idle")) * power / 50
    vc.prove("below sea level the table's sea-level edge is used", vc.eq(f(power, alt, mach), w, tol=TOL, scale=None if vc.symbolic else 3e5 * (1 + abs(power) * (1 + abs(mach)))))


@contract("thrust_breakpoints", time=60, samples=60)
def thrust_breakpoints(vc):
    f = fn(vc, "thrust")
    i, m = pick(vc, "altitude", 6), pick(vc, "Mach", 6)
    k = vc.choice("setting", (("thrust_idle", 0), ("thrust_mil", 50), ("thrust_max", 100)))
    for p, a in ((float(k[1]), float(10000 * i)), (k[1], 10000 * i)):
        vc.prove("the table value at its breakpoint", vc.eq(f(p, a, vc.q(m, 5)), table(vc, k[0])[m][i], tol=TOL, scale=None if vc.symbolic else 1e5))


@contract("adc", time=60, samples=120)
def adc(vc):
    f = vc.mod(LL + "adc").adc
    vt = vc.real("vt", mag=900)
    strat = vc.choice("stratosphere", (False, True))
    alt = vc.real("alt", lo=35000 if strat else None, hi=142000 if strat else 35000, mag=30000)
    if not strat:
        vc.assume(alt < 35000)
    tfac = 1 - vc.num(".703e-5") * alt
    r = f(vt, alt)
    vc.prove("two results", len(r) == 2)
    temp = 390 if strat else 519 * tfac
    rho = vc.num("2.377e-3") * tfac ** vc.num("4.14")
    vc.prove("Mach number is airspeed over the speed of sound", vc.eq(r[0], vt / vc.sqrt(vc.num("1.4") * vc.num("1716.3") * temp), tol=TOL))
    vc.prove("dynamic pressure is half the density times airspeed squared", vc.eq(r[1], rho * vt * vt / 2, tol=TOL))
    vc.prove("Mach number has the sign of airspeed", vc.and_(vc.implies(vt > 0, r[0] > 0), vc.implies(vt == 0, vc.and_(r[0] == 0, r[1] == 0))))
