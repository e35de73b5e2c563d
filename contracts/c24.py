"""C24 F-16 equations of motion are kinematically and dynamically consistent

subf16_model is verified against the contracts of its callees (air data, engine, thrust and the aerodynamic coefficient functions are
uninterpreted functions of their arguments here; C21-C23 put them under contract).  The postconditions are stated in the other direction from the
code: the Euler rates are mapped back to body rates, the speed/angle rates back to body accelerations, the position rate to the rotated velocity."""
from contracts.f16 import LL, fn
from vf.registry import contract

ASSUME = ["airspeed > 0, cos(theta) and cos(beta) non-zero", "callees (adc, tgear, pdot, thrust, cl, cm, cn, cx, cy, cz, dampp, dlda, dldr, dnda, dndr, Morellif16) are functions of their arguments; their own contracts are C21-C23",
          "in the symmetry statement the callees' contracts proved in C21/C23 are used: lateral coefficients vanish without sideslip, lateral deflections and rates"]
TOL = 1e-9
CALLEES = {"adc": 2, "tgear": 1, "pdot": 1, "thrust": 1, "cl": 1, "cm": 1, "cn": 1, "cx": 1, "cy": 1, "cz": 1, "dampp": 9, "dlda": 1, "dldr": 1, "dnda": 1, "dndr": 1}
MODELS = ("stevens", "morelli")
S, B, CBAR, RM, XCG, HE, G, RTOD, XA = "300", "30", "11.32", "1.57e-3", ".35", "160", "32.17", "57.29578", "15"


def ufs(vc, name, n, args):
    r = [vc.uf(name if n == 1 else "%s%d" % (name, i), *args) for i in range(n)]
    return r[0] if n == 1 else r


def by_contract(vc, symmetric=False):
    """callers see the callees through uninterpreted functions of their (positional) arguments"""
    def stub(name, n):
        def repl(orig):
            import inspect
            sig = inspect.signature(orig)

            def f(*a, **k):
                args = list(sig.bind(*a, **k).args)
                r = ufs(vc, name, n, args)
                if symmetric and name in ("cl", "cn", "cy"):
                    zero = args[1:] if name != "cy" else args
                    vc.assume(vc.implies(vc.and_(*[x == 0 for x in zero]), r == 0))
                if symmetric and name == "Morellif16":
                    vc.assume(vc.implies(vc.and_(*[args[i] == 0 for i in (1, 3, 4, 5, 7)]), vc.and_(r[1] == 0, r[3] == 0, r[5] == 0)))
                return vc.arr(r) if name == "dampp" else tuple(r) if n > 1 else r
            return f
        vc.stub(LL + ("morellif16" if name == "Morellif16" else name), name, repl)
    for name, n in CALLEES.items():
        stub(name, n)
    stub("Morellif16", 6)


def flight(vc):
    where = "any" if vc.symbolic else vc.choice("flight", ("usual",) * 5 + ("steep", "inverted", "slow", "crawling", "anywhere"))
    x = [vc.real("vt", pos=True) if vc.symbolic else vc.real("vt", lo=1e-3, hi=1, log=True) if where == "crawling" else vc.real("vt", lo=1 if where == "slow" else 50, hi=50 if where == "slow" else 1800)]
    for n, m in (("alpha", .6), ("beta", .4), ("phi", 3), ("theta", 1.2), ("psi", 3), ("P", 2), ("Q", 1), ("R", 1), ("pn", 1000), ("pe", 1000), ("alt", 20000), ("pow", 100)):
        if vc.symbolic:
            x.append(vc.real(n))
        elif n == "theta" and where == "steep":
            x.append((vc.pi / 2 - vc.real("short of vertical", lo=1e-4, hi=0.1, log=True)) * vc.choice("pitch", (1, -1)))
        elif n == "theta" and where == "inverted":
            x.append(vc.real(n, lo=1.6, hi=3.1) * vc.choice("pitch", (1, -1)))
        elif where == "anywhere" and n in ("alpha", "beta"):
            x.append(vc.real(n, lo=-1.5, hi=1.5))
        else:
            x.append(vc.real(n, lo=-m if n not in ("alt", "pow") else -3000 if n == "alt" else 0, hi=m * (2 if n == "alt" else 1)))
    u = [vc.real(n, mag=m) if vc.symbolic else vc.real(n, lo=0 if n == "thtl" else -m, hi=m) for n, m in (("thtl", 1), ("el", 30), ("ail", 25), ("rdr", 35))]
    if vc.symbolic:
        vc.assume(vc.and_(vc.not_(vc.cos(x[4]) == 0), vc.not_(vc.cos(x[2]) == 0)))
    return x, u


def aero(vc, model, x, u):
    """total force and moment coefficients: static build-up, control derivatives, damping"""
    n = vc.num
    vt, al, be, p, q, r = x[0], x[1] * n(RTOD), x[2] * n(RTOD), x[6], x[7], x[8]
    el, ail, rdr = u[1:]
    k = lambda name, *a: fn(vc, name)(*a)
    if model == "stevens":
        c = [k("cx", al, el), k("cy", be, ail, rdr), k("cz", al, be, el),
             k("cl", al, be) + k("dlda", al, be) * ail / 20 + k("dldr", al, be) * rdr / 30, k("cm", al, el),
             k("cn", al, be) + k("dnda", al, be) * ail / 20 + k("dndr", al, be) * rdr / 30]
    else:
        d = vc.pi / 180
        c = list(vc.mod(LL + "morellif16").Morellif16(al * d, be * d, el * d, ail * d, rdr * d, p, q, r, n(CBAR), n(B), vt, n(XCG), n(XCG)))
    d = k("dampp", al)
    ph, qh, rh = p * n(B) / (2 * vt), q * n(CBAR) / (2 * vt), r * n(B) / (2 * vt)
    return [c[0] + d[0] * qh, c[1] + d[1] * rh + d[2] * ph, c[2] + d[3] * qh, c[3] + d[4] * rh + d[5] * ph, c[4] + d[6] * qh, c[5] + d[7] * rh + d[8] * ph]


def call(vc, model, x, u, adjust, arrays=True):
    f = vc.mod(LL + "subf16_model").subf16_model
    xa, ua = (vc.arr(x), vc.arr(u)) if arrays else (list(x), list(u))
    before = vc.copy(vc.els(xa)), vc.copy(vc.els(ua))
    r = f(xa, ua, model) if adjust is None else f(xa, ua, model, adjust)
    kept = vc.and_(vc.same(vc.els(xa), before[0]), vc.same(vc.els(ua), before[1]))
    return r, kept


def big(vc, *xs):
    return None if vc.symbolic else sum(abs(float(v)) for v in xs)


@contract("equations", [(m, a) for m in MODELS for a in (True, False, None)], time=120, samples=80)
def equations(vc, model, adjust):
    by_contract(vc)
    x, u = flight(vc)
    arrays = vc.choice("state is", ("an array", "a list")) == "an array"
    (xd, nz, ny, az, ay), kept = call(vc, model, x, u, adjust, arrays)
    vc.prove("the caller's state and control are not modified", kept)
    vc.prove("thirteen derivatives", len(xd) == 13)
    xd = vc.els(xd)
    n = vc.num
    vt, al, be, phi, th, psi, p, q, r = x[:9]
    sa, ca, sb, cb = vc.sin(al), vc.cos(al), vc.sin(be), vc.cos(be)
    sph, cph, sth, cth, sps, cps = vc.sin(phi), vc.cos(phi), vc.sin(th), vc.cos(th), vc.sin(psi), vc.cos(psi)
    vel = (vt * ca * cb, vt * sb, vt * sa * cb)
    # engine
    mach, qbar = vc.mod(LL + "adc").adc(vt, x[11])
    vc.prove("engine power follows the geared throttle", vc.eq(xd[12], fn(vc, "pdot")(x[12], fn(vc, "tgear")(u[0])), tol=TOL))
    # kinematics
    vc.prove("roll rate from the Euler rates", vc.eq(xd[3] - xd[5] * sth, p, tol=TOL, scale=big(vc, xd[3], xd[5])))
    vc.prove("pitch rate from the Euler rates", vc.eq(xd[4] * cph + xd[5] * cth * sph, q, tol=TOL, scale=big(vc, xd[4], xd[5])))
    vc.prove("yaw rate from the Euler rates", vc.eq(xd[5] * cth * cph - xd[4] * sph, r, tol=TOL, scale=big(vc, xd[4], xd[5])))
    # navigation: R = Rz(psi) Ry(theta) Rx(phi), down is minus altitude
    y1 = vel[1] * cph - vel[2] * sph
    z1 = vel[1] * sph + vel[2] * cph
    x2, z2 = vel[0] * cth + z1 * sth, -vel[0] * sth + z1 * cth
    nav = (x2 * cps - y1 * sps, x2 * sps + y1 * cps, -z2)
    vc.prove("position derivative is the body velocity rotated by the Euler attitude", vc.eq(list(xd[9:12]), list(nav), tol=TOL, scale=big(vc, vt)))
    vc.prove("position derivative has the magnitude of the airspeed", vc.eq(sum((v * v for v in xd[10:12]), xd[9] * xd[9]), vt * vt, tol=TOL))
    # forces
    c = aero(vc, model, x, u)
    thr = fn(vc, "thrust")(x[12], x[11], mach)
    qs = qbar * n(S)
    fa = [n(RM) * (qs * c[0] + thr), n(RM) * qs * c[1], n(RM) * qs * c[2]]
    acc = (r * vel[1] - q * vel[2] - n(G) * sth + fa[0], p * vel[2] - r * vel[0] + n(G) * cth * sph + fa[1], q * vel[0] - p * vel[1] + n(G) * cth * cph + fa[2])
    sc = big(vc, *acc, *fa, vt * xd[1], vt * xd[2], *vel)
    vc.prove("airspeed rate along the velocity", vc.eq(xd[0] * vt, sum((a * b for a, b in zip(acc[1:], vel[1:])), acc[0] * vel[0]), tol=TOL, scale=big(vc, sc * vt if sc else 0)))
    got = (xd[0] * ca * cb - vt * sa * cb * xd[1] - vt * ca * sb * xd[2], xd[0] * sb + vt * cb * xd[2], xd[0] * sa * cb + vt * ca * cb * xd[1] - vt * sa * sb * xd[2])
    for name, a, b in zip(("forward", "side", "down"), got, acc):
        vc.prove("%s body acceleration from the airspeed and angle rates" % name, vc.eq(a, b, tol=TOL, scale=sc))
    # moments
    qsb, he = qs * n(B), n(HE)
    c1, c2, c3, c4, c5, c6, c7, c8, c9 = (n(v) for v in ("-.770", ".02755", "1.055e-4", "1.642e-6", ".9604", "1.759e-2", "1.792e-5", "-.7336", "1.587e-5"))
    ms = big(vc, qsb * c3 * c[3], qsb * c9 * c[5], p * q, q * r, p * r, p * p, r * r)
    vc.prove("roll acceleration", vc.eq(xd[6], (c1 * r + c2 * p) * q + c3 * qsb * c[3] + c4 * (qsb * c[5] + he * q), tol=TOL, scale=ms))
    vc.prove("pitch acceleration", vc.eq(xd[7], c5 * p * r - c6 * (p * p - r * r) + c7 * (qs * n(CBAR) * c[4] - he * r), tol=TOL, scale=big(vc, qs * c[4], p * r, p * p, r * r)))
    vc.prove("yaw acceleration", vc.eq(xd[8], (c8 * p - c2 * r) * q + c4 * qsb * c[3] + c9 * (qsb * c[5] + he * q), tol=TOL, scale=ms))
    # outputs
    xa = n(XA)
    vc.prove("normal acceleration at the pilot", vc.eq(az, fa[2] - xa * xd[7], tol=TOL, scale=big(vc, fa[2], xd[7])))
    vc.prove("side acceleration", vc.eq(ay, fa[1] if adjust is False else fa[1] + xa * xd[8], tol=TOL, scale=big(vc, fa[1], xd[8])))
    vc.prove("load factors are the accelerations in g", vc.and_(vc.eq(nz, -az / n(G) - 1, tol=TOL), vc.eq(ny, ay / n(G), tol=TOL)))


@contract("symmetric", [(m, a) for m in MODELS for a in (True, False)], time=120, samples=80)
def symmetric(vc, model, adjust):
    by_contract(vc, symmetric=True)
    x, u = flight(vc)
    for i in (2, 3, 6, 7, 8):
        x[i] = 0.0
    u[2] = u[3] = 0.0
    (xd, nz, ny, az, ay), kept = call(vc, model, x, u, adjust)
    vc.prove("no sideslip, bank or heading change and no lateral angular acceleration", vc.and_(*[vc.eq(xd[i], 0, tol=TOL) for i in (2, 3, 5, 6, 8)]))
    vc.prove("no side load", vc.and_(vc.eq(ny, 0, tol=TOL), vc.eq(ay, 0, tol=TOL)))
    vc.prove("no motion across the heading", vc.eq(xd[9] * vc.sin(x[5]), xd[10] * vc.cos(x[5]), tol=TOL, scale=big(vc, x[0])))


@contract("repeatable", [(m,) for m in MODELS], time=60, samples=40)
def repeatable(vc, model):
    by_contract(vc)
    x, u = flight(vc)
    (xd, *rest), _ = call(vc, model, x, u, True)
    first = list(vc.copy(vc.els(xd))) + rest
    y = [500.0] + [0.0] * 5 + [0.1] * 7
    other = vc.mod(LL + "subf16_model").subf16_model(vc.arr(y), vc.arr([0.3, 1.0, 2.0, 3.0]), "morelli" if model == "stevens" else "stevens", False)
    vc.prove("the result belongs to the caller", vc.same(list(vc.els(xd)) + rest, first))
    other[0][0] = 7.0
    (xe, *rest2), _ = call(vc, model, x, u, True)
    vc.prove("a call does not depend on earlier calls", vc.same(list(vc.els(xe)) + rest2, first))


@contract("published order", time=20, samples=2)
def published_order(vc):
    """the index names are those of the components the equations of motion use"""
    S = vc.mod("external.aerobench.util").StateIndex
    want = {"VT": 0, "VEL": 0, "ALPHA": 1, "BETA": 2, "PHI": 3, "THETA": 4, "PSI": 5, "P": 6, "Q": 7, "R": 8, "POSN": 9, "POS_N": 9, "POSE": 10, "POS_E": 10, "ALT": 11, "H": 11, "POW": 12}
    for k, i in want.items():
        vc.prove("state indices name the components", getattr(S, k) == i)
