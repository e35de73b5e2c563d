"""C23 the F-16 polynomial aero model saturates at its validity range

Morellif16 is compared, for every region of the clamped arguments (each below, inside or above its validity range), with the published polynomials
evaluated at the limited arguments; the damping and symmetry statements are separate postconditions over the same function."""
from contracts.f16 import LL
from contracts.f16data import MORELLI
from vf.registry import contract

ASSUME = ["the published coefficients are the ones transcribed in contracts/f16data.py", "airspeed V > 0 and wing span b non-zero",
          "float arithmetic treated as real arithmetic (concrete cross-check with tolerance 1e-9 relative)"]
TOL = 1e-9
RANGES = (("alpha", -10, 45), ("beta", -30, 30), ("de", -25, 25), ("da", "-21.5", "21.5"), ("dr", -30, 30))


def coef(vc):
    return {k: [vc.num(x) for x in v.split()] for k, v in MORELLI.items()}


def poly(c, x):
    r = c[-1]
    for a in reversed(c[:-1]):
        r = a + x * r
    return r


def published(vc, al, be, de, da, dr, ph, qh, rh, dcg, ratio):
    """Morelli's global nonlinear F-16 model at arguments inside its validity range; dcg = xcgref - xcg, ratio = cbar / b"""
    c = coef(vc)
    a2, a3, b2 = al * al, al * al * al, be * be
    a, h, k, ll, m, o, r, s = (c[x] for x in "ahklmors")
    cx = a[0] + a[1] * al + a[5] * a2 + a[6] * a3 + de * (a[2] * de + a[3] + a[4] * al) + poly(c["b"], al) * qh
    cy = c["c"][0] * be + c["c"][1] * da + c["c"][2] * dr + poly(c["d"], al) * ph + poly(c["e"], al) * rh
    cz = poly(c["f"][:5], al) * (1 - b2) + c["f"][5] * de + poly(c["g"], al) * qh
    clda = k[0] + k[1] * al + k[2] * be + k[3] * a2 + k[4] * al * be + k[5] * a2 * be + k[6] * a3
    cldr = ll[0] + ll[1] * al + ll[2] * be + ll[3] * al * be + ll[4] * a2 * be + ll[5] * a3 * be + ll[6] * b2
    cl = (be * (h[0] + h[1] * al + h[2] * a2 + h[5] * a3 + h[6] * a2 * a2) + b2 * (h[3] + h[4] * al + h[7] * a2)
          + poly(c["i"], al) * ph + poly(c["j"], al) * rh + clda * da + cldr * dr)
    cm = m[0] + m[1] * al + de * (m[2] + m[3] * al + m[5] * a2) + de * de * (m[4] + m[7] * al + m[6] * de) + poly(c["n"], al) * qh + cz * dcg
    cnda = r[0] + r[1] * al + r[6] * a2 + r[7] * a3 + be * (r[2] + r[3] * al + r[4] * a2 + r[5] * a3) + be * b2 * (r[8] + r[9] * al)
    cndr = s[0] + s[1] * al + s[2] * be + s[3] * al * be + s[4] * a2 * be + s[5] * a2
    cn = (be * (o[0] + o[1] * al + o[4] * a2 + o[6] * a3) + b2 * (o[2] + o[3] * al + o[5] * a2)
          + poly(c["p"], al) * ph + poly(c["q"], al) * rh + cnda * da + cndr * dr - cy * dcg * ratio)
    return cx, cy, cz, cl, cm, cn


def model(vc):
    return vc.mod(LL + "morellif16").Morellif16


def arg(vc, name, lo, hi, region):
    """(argument, its limited value)"""
    d = vc.pi / 180
    lo, hi = (vc.num(x) if isinstance(x, str) else x for x in (lo, hi))
    lo, hi = lo * d, hi * d
    x = vc.real(name, mag=0.8) if vc.symbolic else vc.real(name, lo=lo if region != "below" else lo - 3, hi=hi if region != "above" else hi + 3)
    if region == "below":
        vc.assume(x <= lo)
        return x, lo
    if region == "above":
        vc.assume(x >= hi)
        return x, hi
    vc.assume(vc.and_(x > lo, x < hi))
    return x, x


def body(vc):
    return [vc.real(n, mag=2) for n in "pqr"]


def geometry(vc):
    v = vc.real("V", mag=500, lo=1) if not vc.symbolic else vc.real("V", pos=True)
    b = vc.real("b", mag=30, lo=1) if not vc.symbolic else vc.real("b", pos=True)
    return vc.real("cbar", mag=11), b, v, vc.real("xcg", mag=1), vc.real("xcgref", mag=1)


NAMES = ("axial force", "side force", "normal force", "rolling moment", "pitching moment", "yawing moment")


REGIONS = ("inside", "below", "above")


@contract("published", [(r, s) for r in REGIONS for s in REGIONS], time=300, samples=80)
def published_polynomials(vc, *regions):
    args, lim = [], []
    for i, (n, lo, hi) in enumerate(RANGES):
        x, y = arg(vc, n, lo, hi, regions[i] if i < 2 else vc.choice(n, REGIONS))
        args.append(x)
        lim.append(y)
    p, q, r = body(vc)
    cbar, b, v, xcg, xcgref = geometry(vc)
    got = model(vc)(*args, p, q, r, cbar, b, v, xcg, xcgref)
    want = published(vc, *lim, p * b / (2 * v), q * cbar / (2 * v), r * b / (2 * v), xcgref - xcg, cbar / b)
    vc.prove("six coefficients", len(got) == 6)
    for n, g, w in zip(NAMES, got, want):
        vc.prove("%s coefficient is the published polynomial at the limited arguments" % n,
                 vc.eq(g, w, tol=TOL, scale=None if vc.symbolic else 1e4 * (1 + abs(p) + abs(q) + abs(r)) * (1 + abs(cbar)) * (1 + abs(b)) * (1 + abs(xcgref - xcg))))


@contract("symmetric", time=60, samples=150)
def symmetric(vc):
    al, de = vc.real("alpha", mag=1), vc.real("de", mag=1)
    q = vc.real("q", mag=2)
    cbar, b, v, xcg, xcgref = geometry(vc)
    cx, cy, cz, cl, cm, cn = model(vc)(al, 0.0, de, 0.0, 0.0, 0.0, q, 0.0, cbar, b, v, xcg, xcgref)
    vc.prove("no side force, rolling or yawing moment in symmetric flight", vc.and_(vc.eq(cy, 0, tol=TOL), vc.eq(cl, 0, tol=TOL), vc.eq(cn, 0, tol=TOL)))


@contract("damping", time=200, samples=100)
def damping(vc):
    """damping is proportional to the non-dimensional rates: doubling the airspeed and all rates changes nothing; the effect is linear"""
    args = [arg(vc, n, lo, hi, "inside" if i else vc.choice(n, REGIONS))[0] for i, (n, lo, hi) in enumerate(RANGES)]
    p, q, r = body(vc)
    cbar, b, v, xcg, xcgref = geometry(vc)
    f = model(vc)
    geo = (xcg, xcgref)
    z = f(*args, 0.0, 0.0, 0.0, cbar, b, v, *geo)
    one = f(*args, p, q, r, cbar, b, v, *geo)
    k = vc.real("k", mag=3)
    scaled = f(*args, k * p, k * q, k * r, cbar, b, v, *geo)
    big = None if vc.symbolic else 1e4 * (1 + abs(k)) * (1 + abs(p) + abs(q) + abs(r)) * (1 + abs(cbar)) * (1 + abs(b)) * (1 + abs(xcgref - xcg))
    vc.prove("damping is linear in the body rates", vc.and_(*[vc.eq(s - a, k * (o - a), tol=TOL, scale=big) for a, o, s in zip(z, one, scaled)]))
    kk = vc.real("kk", lo=0.2, hi=5)
    same = f(*args, kk * p, kk * q, kk * r, cbar, b, kk * v, *geo)
    vc.prove("only the ratio of rates to airspeed matters", vc.and_(*[vc.eq(x, y, tol=TOL, scale=big) for x, y in zip(same, one)]))


@contract("saturation", time=100, samples=100)
def saturation(vc):
    """beyond the range the coefficients stay at their boundary values"""
    d = vc.pi / 180
    which = vc.choice("argument", (0, 1, 2, 3, 4))
    n, lo, hi = RANGES[which]
    up = vc.choice("side", (False, True))
    edge = (vc.num(hi) if isinstance(hi, str) else hi) * d if up else (vc.num(lo) if isinstance(lo, str) else lo) * d
    extra = vc.real("beyond", lo=0, mag=5)
    args = [vc.q(i + 1, 10) for i in range(5)]
    p, q, r = body(vc)
    cbar, b, v, xcg, xcgref = geometry(vc)
    f = model(vc)
    at, out = list(args), list(args)
    at[which], out[which] = edge, edge + extra if up else edge - extra
    vc.prove("boundary value beyond the range", vc.eq(list(f(*out, p, q, r, cbar, b, v, xcg, xcgref)), list(f(*at, p, q, r, cbar, b, v, xcg, xcgref)), tol=TOL))
