"""C28 safety verification accepts exactly the runs within all limits

SafetyLimitsVerifier.verify: AssertionError iff some tick violates a configured limit, for arbitrary states, records and limits.
extract_single_result: projection onto one aircraft, input unaltered."""
from contracts.f16 import LL
from vf.registry import contract

ASSUME = ["ps and sideslip limits are one-sided, in degrees; the angle-of-attack limits are in radians like the state (as documented by the code)",
          "no NaN in states or records"]
TWO = ("altitude", "Nz", "v", "alpha")
ONE = ("psMaxAccelDeg", "betaMaxDeg")
RANGE = {"altitude": (11, 5000), "v": (0, 500), "alpha": (1, 0.5), "Nz": (None, 4), "psMaxAccelDeg": (None, 2), "betaMaxDeg": (2, 0.5)}


def result(vc, n, cols):
    """a simulation result with n ticks"""
    st, nz, ps = [], [], []
    odd = None if vc.symbolic or not n or vc.rng.random() < 0.3 else vc.rng.choice((0, n - 1, n // 2, vc.rng.randrange(n)))
    for i in range(n):
        wide = 2 if i == odd else 0.5
        row = []
        for j in range(cols):
            m = {0: 500, 1: 0.5, 2: 0.5, 11: 5000}.get(j, 1) * wide
            row.append(vc.real("s%d_%d" % (i, j), mag=m) if vc.symbolic else vc.real("s%d_%d" % (i, j), lo=-m, hi=m))
        st.append(row)
        nz.append(vc.real("nz%d" % i, mag=4) if vc.symbolic else vc.real("nz%d" % i, lo=-4 * wide, hi=4 * wide))
        ps.append(vc.real("ps%d" % i, mag=2) if vc.symbolic else vc.real("ps%d" % i, lo=-2 * wide, hi=2 * wide))
    a = vc.np.array(st, dtype=vc.np.float64) if n else vc.np.zeros((0, cols))
    return st, nz, ps, {"status": "finished", "times": [vc.q(i, 10) for i in range(n)], "modes": ["m"] * n, "states": a, "Nz_list": list(nz), "ps_list": list(ps)}


def limits(vc, names):
    lim = {}
    for n in names:
        m = RANGE[n][1] * (57 if n in ONE else 1)
        if n in ONE:
            lim[n] = vc.real(n, mag=m) if vc.symbolic else vc.rng.choice((vc.real(n, lo=0.5 * m, hi=m), 0.0, vc.real(n, lo=-m, hi=m)))
            if not vc.symbolic:
                vc.used[n] = lim[n]
        elif vc.symbolic:
            lim[n] = (vc.real(n + "_lo", mag=m), vc.real(n + "_hi", mag=m))
        else:
            lim[n] = (vc.real(n + "_lo", lo=-m, hi=-0.6 * m), vc.real(n + "_hi", lo=0.6 * m, hi=m))
    return lim


def nudge(vc, lim, row, nz, ps):
    """in concrete runs: move one limit next to the value it limits at this tick"""
    if vc.symbolic or not lim or vc.rng.random() < 0.5:
        return lim
    n = vc.rng.choice(sorted(lim))
    d = vc.rng.choice((-1, 1)) * 10 ** vc.rng.uniform(-8, 0)
    key = n if n in ONE else n + vc.rng.choice(("_lo", "_hi"))
    x = {"altitude": row[11], "Nz": nz, "v": row[0], "alpha": row[1], "psMaxAccelDeg": ps * 180 / vc.pi, "betaMaxDeg": row[2] * 180 / vc.pi}[n] + d
    if key in vc.env:
        return lim
    vc.used[key] = x = float(x)
    return {**lim, n: x if n in ONE else (x, lim[n][1]) if key.endswith("_lo") else (lim[n][0], x)}


def violated(vc, lim, row, nz, ps):
    v = {"altitude": row[11], "Nz": nz, "v": row[0], "alpha": row[1]}
    deg = 180 / vc.pi
    out = []
    for n, b in lim.items():
        if n in ONE:
            out.append((ps if n == "psMaxAccelDeg" else row[2]) * deg > b)
        else:
            out += [v[n] < b[0], v[n] > b[1]]
    return vc.or_(*out) if out else False


def verifier(vc, lim, llc, absent):
    u = vc.mod("external.aerobench.util")
    kw = dict(lim)
    if absent == "None":
        kw.update({n: None for n in TWO + ONE if n not in lim})
    return u.SafetyLimitsVerifier(u.SafetyLimits(**kw), llc=llc) if llc is not None or absent == "None" else u.SafetyLimitsVerifier(u.SafetyLimits(**kw))


class Controller:
    """a controller of the user's, with another number of integrators"""

    def __init__(self, k):
        self.k = k

    def get_num_integrators(self):
        return self.k


def controller(vc):
    """the library's controller (three integrators) or one with any other number"""
    k = vc.choice("controller", ("LowLevelController",) * (1 if vc.symbolic else 2) + (0, 1, 5))
    return (vc.mod(LL + "low_level_controller").LowLevelController(), 16) if k == "LowLevelController" else (Controller(k), 13 + k)


def check(vc, n, names, with_llc, history=True):
    llc, cols = controller(vc) if with_llc else (None, 13)
    st, nz, ps, res = result(vc, n, cols)
    lim = limits(vc, names)
    if n:
        i = 0 if vc.symbolic else vc.rng.randrange(n)
        lim = nudge(vc, lim, st[i], nz[i], ps[i])
    v = verifier(vc, lim, llc, vc.choice("unset limits", ("absent", "None")) if history else "absent")
    if history and vc.choice("verified before", (False, True)):
        # an earlier safe and an earlier unsafe run
        zero = {"states": vc.np.zeros((1, cols)), "Nz_list": [0.0], "ps_list": [0.0]}
        vc.raises(("AssertionError",), lambda: v.verify(zero))
    got = vc.raises(("AssertionError",), lambda: v.verify(res))
    bad = [violated(vc, lim, st[i], nz[i], ps[i]) for i in range(n)]
    vc.prove("raises iff a configured limit is violated at some tick", vc.iff(got, vc.or_(*bad) if bad else False))
    vc.prove("the result is not altered", vc.and_(vc.same(vc.els(res["states"]), [x for r in st for x in r]), vc.same(res["Nz_list"], nz), vc.same(res["ps_list"], ps)))


SINGLE = [(x,) for x in TWO + ONE]
ALL = [tuple(TWO + ONE)]
SOME = [(), ("altitude", "v"), ("Nz", "alpha"), ("psMaxAccelDeg", "betaMaxDeg"), ("v", "psMaxAccelDeg"), ("altitude", "betaMaxDeg")]


@contract("ticks", [(n, "llc" if w else "no llc") for n in (0, 1, 2, 3) for w in (False, True)], time=120, samples=200)
def ticks(vc, n, who):
    names = vc.choice("limits", tuple(SINGLE + SOME + ALL) if n < 3 else tuple(SINGLE + ALL))
    if not vc.symbolic and n == 3:
        n = vc.rng.choice((3, 5, 8, 12, 17, 40, 130))
    check(vc, n, names, who == "llc")


def sequence(vc, cols):
    """a simulation result of any length: the state and records at the generic tick g, at other ticks, and the result itself"""
    n = vc.int("N", 1, None if vc.symbolic else 3000 if vc.rng.random() < 0.08 else 120)
    if vc.symbolic:
        g = vc.index("g", n)
    else:
        if n > 50000:
            vc.assume(False)
        g = vc.int("g", 0, n - 1)
        vc.assume(g < n)
    mags = [{0: 500, 1: 0.5, 2: 0.5, 11: 5000}.get(j, 1) for j in range(cols)]
    one = lambda name, m: vc.real(name, mag=m) if vc.symbolic else vc.real(name, lo=-2 * m, hi=2 * m)
    row = [one("s%d" % j, m) for j, m in enumerate(mags)]
    nz, ps = one("nz", 4), one("ps", 2)
    if vc.symbolic:
        from vf import gen, npshim
        from vf import terms as tm
        at = lambda p, v, f: v if p is g.t else vc.ite(gen.SInt(p) == g, v, vc.uf(f, gen.SInt(p)))
        states = gen.Seq(n, lambda p: npshim.array([at(p, v, "state%d" % j) for j, v in enumerate(row)], dtype=npshim.float64), True, cols)
        recs = [gen.Seq(n, lambda p, v=v, f=f: at(p, v, f)) for v, f in ((nz, "nz_at"), (ps, "ps_at"))]
        times = gen.Seq(n, lambda p: vc.uf("time", gen.SInt(p)))
        return n, g, [(row, nz, ps)], {"status": "finished", "times": times, "states": states, "Nz_list": recs[0], "ps_list": recs[1]}
    odd = vc.rng.randrange(n) if vc.rng.random() < 0.2 else None
    wide = lambda i: 2 if i == odd else 0.5
    draw = lambda i, m: vc.rng.uniform(-m, m) * wide(i)
    ticks = [(row, nz, ps) if i == g else ([draw(i, m) for m in mags], draw(i, 4), draw(i, 2)) for i in range(n)]
    a = vc.np.array([t[0] for t in ticks])
    return n, g, ticks, {"status": "finished", "times": [i / 10 for i in range(n)], "states": a, "Nz_list": [t[1] for t in ticks], "ps_list": [t[2] for t in ticks]}


@contract("any_ticks", ["llc", "no llc"], time=120, samples=200)
def any_ticks(vc, who):
    """any number of ticks: the loop rule at an arbitrary tick (the run is accepted iff no tick is bad)"""
    names = vc.choice("limits", tuple(SINGLE + SOME + ALL))
    lim = limits(vc, names)
    llc, cols = controller(vc) if who == "llc" else (None, 13)
    v = verifier(vc, lim, llc, vc.choice("unset limits", ("absent", "None")))
    n, g, ticks, res = sequence(vc, cols)
    got = vc.raises(("AssertionError",), lambda: v.verify(res))
    bad = vc.or_(*[violated(vc, lim, *t) for t in ticks])
    vc.prove("raises iff a configured limit is violated at some tick", vc.iff(got, bad))
    if vc.symbolic:
        vc.prove("the result is not altered", all(res[k].unaltered() for k in ("states", "Nz_list", "ps_list")))
    else:
        vc.prove("the result is not altered", vc.and_(vc.same(vc.els(res["states"]), [x for t in ticks for x in t[0]]), vc.same(res["Nz_list"], [t[1] for t in ticks]),
                                                     vc.same(res["ps_list"], [t[2] for t in ticks])))


@contract("subsets", time=120, samples=200)
def subsets(vc):
    check(vc, 1, tuple(vc.subset("limits", TWO + ONE)), False, False)


KEYS = ("xd_list", "ps_list", "Nz_list", "Ny_r_list", "u_list")


@contract("extract_any", ["basic", "extended"], time=120, samples=60)
def extract_any(vc, what):
    """any number of ticks and aircraft: at an arbitrary tick, an arbitrary aircraft's states and records"""
    u = vc.mod("external.aerobench.util")
    llc, nv = controller(vc)
    n, a = vc.int("N", 1, None if vc.symbolic else 40), vc.int("A", 2, None if vc.symbolic else 9)
    if vc.symbolic:
        g = vc.index("g", n)
        k = vc.int("k", 0)
    else:
        vc.assume(n * a < 20000)
        g, k = vc.int("g", 0, n - 1), vc.int("k", 0, a - 1)
        vc.assume(g < n)
    vc.assume(k < a)
    keys = KEYS if what == "extended" else ()
    modes, times = ["a"], [0.0]
    if vc.symbolic:
        from vf import gen
        S = gen.SInt
        st = lambda i, c: vc.uf("state", S(i), S(c))
        res = {"status": "autopilot finished", "times": times, "modes": modes,
               "states": gen.Seq(n, lambda i: gen.Seq(gen._n(gen.tm.mul(gen.tm.const(nv), a.t)), lambda c: st(i, c), True), True, gen._n(gen.tm.mul(gen.tm.const(nv), a.t)))}
        for key in keys:
            res[key] = gen.Seq(n, lambda i, key=key: gen.Seq(a, lambda c: vc.uf(key, S(i), S(c))))
        r = u.extract_single_result(res, k, llc)
        rs = r["states"]
        if not all(gen.isgen(r.get(x, rs)) for x in ("states",) + keys):
            vc.unsupported("records not given as sequences of symbolic length")
        vc.prove("one row per tick, its state variables", vc.and_(rs.arr and rs.n == n, rs.cols is not None and rs.cols == nv))
        row = rs[g]
        vc.prove("exactly this aircraft's state columns", vc.and_(*[row[j] == vc.uf("state", g, nv * k + j) for j in range(nv)]))
        for key in keys:
            v = r[key]
            vc.prove("exactly this aircraft's records", vc.and_(v.n == n, v[g] == vc.uf(key, g, k)))
    else:
        val = lambda q, i, c: 1000.0 * i + c + 0.001 * q
        res = {"status": "autopilot finished", "times": times, "modes": modes, "states": vc.np.array([[val(0, i, c) for c in range(nv * a)] for i in range(n)])}
        for q, key in enumerate(keys):
            res[key] = [tuple(val(q + 1, i, c) for c in range(a)) for i in range(n)]
        r = u.extract_single_result(res, k, llc)
        vc.prove("one row per tick, its state variables", tuple(r["states"].shape) == (n, nv))
        vc.prove("exactly this aircraft's state columns", vc.same(vc.els(r["states"]), [val(0, i, c) for i in range(n) for c in range(nv * k, nv * k + nv)]))
        for q, key in enumerate(keys):
            vc.prove("exactly this aircraft's records", vc.same(list(r[key]), [val(q + 1, i, k) for i in range(n)]))
    vc.prove("common records", vc.and_(r["status"] == "autopilot finished", r["times"] == times, r["modes"] == modes))
    vc.prove("exactly the records present", set(r) == {"status", "times", "modes", "states"} | set(keys))
    vc.prove("the input keeps its records", set(res) == {"status", "times", "modes", "states"} | set(keys) and times == [0.0] and modes == ["a"])


@contract("extract", [(n,) for n in (1, 2, 3, 4)], time=60, samples=30)
def extract(vc, n):
    u = vc.mod("external.aerobench.util")
    llc, nv = controller(vc)
    ext = vc.choice("extended records", (True, False))
    k = vc.choice("aircraft", tuple(range(n)))
    t = 2
    st = [[vc.real("s%d_%d" % (i, j), mag=5) for j in range(nv * n)] for i in range(t)]
    rec = {key: [tuple(vc.real("%s%d_%d" % (key, i, a), mag=3) for a in range(n)) for i in range(t)] for key in ("xd_list", "ps_list", "Nz_list", "Ny_r_list", "u_list")} if ext else {}
    if n == 1:
        rec = {key: [x[0] for x in v] for key, v in rec.items()}
    res = {"status": "autopilot finished", "times": [0.0, 0.5], "modes": ["a", "b"], "states": vc.np.array(st, dtype=vc.np.float64)}
    res.update({key: list(v) for key, v in rec.items()})
    r = u.extract_single_result(res, k, llc)
    flat = [x for row in st for x in row]
    unaltered = vc.and_(vc.same(vc.els(res["states"]), flat), set(res) == {"status", "times", "modes", "states"} | set(rec), res["status"] == "autopilot finished", res["times"] == [0.0, 0.5],
                        res["modes"] == ["a", "b"], *[vc.same([y for x in res[key] for y in (x if n > 1 else (x,))], [y for x in rec[key] for y in (x if n > 1 else (x,))]) for key in rec])
    vc.prove("the input is not altered", unaltered)
    vc.prove("two ticks of its state variables", tuple(r["states"].shape) == (t, nv))
    vc.prove("exactly this aircraft's state columns", vc.eq(list(vc.els(r["states"])), [x for row in st for x in row[nv * k:nv * k + nv]], tol=1e-12))
    vc.prove("common records", vc.and_(r["status"] == "autopilot finished", list(r["times"]) == [0.0, 0.5], list(r["modes"]) == ["a", "b"]))
    vc.prove("exactly the records present", set(r) == set(res))
    for key in rec:
        vc.prove("exactly this aircraft's records", vc.same(list(r[key]), [x[k] if n > 1 else x for x in rec[key]]))
