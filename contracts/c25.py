"""C25 F-16 low-level control saturates and closes the loop consistently

get_u_deg, get_integrator_derivatives and controlled_f16 (the latter against the contract of subf16_model, C24) for every state and reference; the
class data shared by all controllers is covered by postconditions over several controllers and calls."""
from contracts.f16 import LL
from contracts.f16data import GAINS, UEQ, XEQ
from vf.registry import contract

ASSUME = ["subf16_model is a function of its arguments here (its own contract is C24)", "state and reference are floating-point arrays (the functions require numpy arrays)",
          "the gain matrix and the trim point are the ones transcribed in contracts/f16data.py"]
TOL = 1e-9
SEL = (1, 7, 13, 2, 6, 8, 14, 15)
LIMITS = ((0, 1), (-25, 25), ("-21.5", "21.5"), (-30, 30))


def controller(vc):
    return vc.mod(LL + "low_level_controller").LowLevelController()


def state(vc, tag=""):
    if vc.symbolic:
        return [vc.real("%sx%d" % (tag, i)) for i in range(16)]
    w = [float(v) for v in XEQ.split()] + [0.0] * 3
    sd = vc.rng.choice((0.02, 0.3, 2, 8))
    return [vc.real("%sx%d" % (tag, i), lo=w[i] - (sd if i not in (0, 11, 12) else 5), hi=w[i] + (sd if i not in (0, 11, 12) else 30)) for i in range(16)]


def reference(vc, tag=""):
    return [vc.real("%sr%d" % (tag, i), mag=2) for i in range(4)]


def law(vc, x, ur):
    n = vc.num
    eq = [n(v) for v in XEQ.split()] + [0, 0, 0]
    xc = [x[i] - eq[i] for i in SEL]
    trim = [n(v) for v in UEQ.split()]
    k = [[n(v) for v in r.split()] for r in GAINS]
    raw = [ur[3] + trim[0]] + [trim[j + 1] - sum((k[j][i] * xc[i] for i in range(1, 8)), k[j][0] * xc[0]) for j in range(3)]
    lim = [tuple(n(v) if isinstance(v, str) else v for v in p) for p in LIMITS]
    return xc, raw, lim


@contract("law", time=120, samples=300)
def control_law(vc):
    c = controller(vc)
    x, ur = state(vc), reference(vc)
    xa, ra = vc.arr(x), vc.arr(ur)
    xctrl, u = c.get_u_deg(ra, xa)
    xc, raw, lim = law(vc, x, ur)
    vc.prove("inputs are not modified", vc.and_(vc.same(vc.els(xa), x), vc.same(vc.els(ra), ur)))
    vc.prove("four controls", len(u) == 4)
    u = vc.els(u)
    for name, v, w, (lo, hi) in zip(("throttle", "elevator", "aileron", "rudder"), u, raw, lim):
        vc.prove("%s within its limits" % name, vc.and_(vc.le(lo, v), vc.le(v, hi)))
        vc.prove("%s is trim plus linear feedback, limited" % name, vc.eq(v, vc.clip(w, lo, hi), tol=TOL, scale=None if vc.symbolic else 400 * sum(abs(float(t)) for t in x[:9] + x[13:])))
        vc.prove("%s is trim plus linear feedback when that is inside the limits" % name,
                 vc.implies(vc.and_(w > lo, w < hi), vc.eq(v, w, tol=TOL, scale=None if vc.symbolic else 400 * sum(abs(float(t)) for t in x[:9] + x[13:]))))
    vc.prove("controller states are the deviations from trim in controller order", vc.eq(list(vc.els(xctrl)), xc, tol=TOL, scale=None if vc.symbolic else 600))


@contract("integrators", time=30, samples=60)
def integrators(vc):
    c = controller(vc)
    ur = reference(vc)
    nz, ps, ny = vc.real("nz", mag=5), vc.real("ps", mag=2), vc.real("ny", mag=2)
    d = c.get_integrator_derivatives(vc.arr(ur), nz, ps, ny)
    vc.prove("three integrators", vc.and_(c.get_num_integrators() == 3, len(d) == 3))
    vc.prove("tracking errors", vc.eq(list(vc.els(d)), [nz - ur[0], ps - ur[1], ny - ur[2]], tol=TOL))


def attrs(vc, c):
    return [v for n in ("K_lqr", "xequil", "uequil", "old_k_long", "old_k_lat", "old_xequil", "old_uequil") if hasattr(c, n) for v in vc.els(vc.copy(getattr(c, n)))]


@contract("history", time=120, samples=60)
def history(vc):
    """any earlier calls, of this or another controller, leave gains and trim alone"""
    a = controller(vc)
    before = attrs(vc, a)
    x, y, ur, vr = state(vc), state(vc, "y"), reference(vc), reference(vc, "v")
    other = controller(vc) if vc.choice("another controller", (False, True)) else a
    xc, u = other.get_u_deg(vc.arr(vr), vc.arr(y))
    u[:] = 99.0
    xc[:] = 77.0
    other.get_integrator_derivatives(vc.arr(vr), 1.0, 2.0, 3.0)
    third = controller(vc) if vc.choice("created later", (False, True)) else a
    xctrl, u = third.get_u_deg(vc.arr(ur), vc.arr(x))
    want, raw, lim = law(vc, x, ur)
    sc = None if vc.symbolic else 400 * sum(abs(float(t)) for t in x[:9] + x[13:])
    vc.prove("the control law is unchanged by earlier calls", vc.and_(vc.eq(list(vc.els(u)), [vc.clip(w, *p) for w, p in zip(raw, lim)], tol=TOL, scale=sc), vc.eq(list(vc.els(xctrl)), want, tol=TOL, scale=sc)))
    vc.prove("gains and trim point are never modified", vc.same(attrs(vc, a), before))


@contract("frozen", time=30, samples=5)
def frozen(vc):
    c = controller(vc)

    def put(o, n):
        def f():
            setattr(o, n, 1.0)
        return f
    name = vc.choice("name", ("new_field", "K", "x_equil", "uequil2", "_hidden"))
    used = vc.choice("after use", (False, True))
    if used:
        c.get_u_deg(vc.arr([0.0] * 4), vc.arr([0.0] * 16))
    vc.prove("no field can be added to a controller", vc.raises(("TypeError", "AttributeError"), put(c, name)))
    vc.prove("no field appears", not hasattr(c, name))
    lim = vc.mod(LL + "low_level_controller").CtrlLimits()
    vc.prove("no field can be added to control limits", vc.raises(("TypeError", "AttributeError"), put(lim, name)))
    vc.prove("existing fields can be assigned", not vc.raises(("TypeError", "AttributeError"), put(lim, "NzMax")))
    vc.prove("assigned", lim.NzMax == 1.0)
    vc.prove("other limits objects are not affected", vc.mod(LL + "low_level_controller").CtrlLimits().NzMax == 6)


def plant(vc):
    """subf16_model by contract: a function of state, control in degrees, aero model and side-acceleration option; modifies neither input"""
    def repl(orig):
        import inspect
        sig = inspect.signature(orig)

        def f(*a, **k):
            b = sig.bind(*a, **k)
            b.apply_defaults()
            x, u, model, adj = b.args
            vc.prove("subf16_model is called with 13 states and 4 controls", len(x) == 13 and len(u) == 4 and model in ("stevens", "morelli"))
            g = lambda n: vc.uf("%s/%s/%s" % (n, model, bool(adj)), x, u)
            return vc.arr([g("xd%d" % i) for i in range(13)]), g("nz"), g("ny"), g("az"), g("ay")
        return f
    vc.stub(LL + "subf16_model", "subf16_model", repl)


@contract("closed_loop", [(m, v) for m in ("stevens", "morelli") for v in (False, True)], time=120, samples=100)
def closed_loop(vc, model, v2):
    plant(vc)
    c = controller(vc)
    before = attrs(vc, c)
    x, ur = state(vc), reference(vc)
    xa, ra = vc.arr(x), vc.arr(ur)
    f = vc.mod("external.aerobench.controlled_f16").controlled_f16
    defaults = model == "morelli" and not v2 and vc.choice("default arguments", (False, True))
    args = () if defaults else (model, v2)
    if not defaults and vc.choice("called before", (False, True)):
        f(vc.arr([502.0] + [0.1] * 15), vc.arr([0.1, 0.2, 0.3, 0.4]), c, *args)
    xd, urad, nz, ps, nyr = f(xa, ra, c, *args)
    vc.prove("inputs, gains and trim point are not modified", vc.and_(vc.same(vc.els(xa), x), vc.same(vc.els(ra), ur), vc.same(attrs(vc, c), before)))
    xc, raw, lim = law(vc, x, ur)
    u = [vc.clip(w, *p) for w, p in zip(raw, lim)]
    if not vc.symbolic:
        u = [float(v) for v in c.get_u_deg(vc.arr(ur), vc.arr(x))[1]]
    want = vc.mod(LL + "subf16_model").subf16_model(vc.arr(x[:13]), vc.arr(u), model)
    vc.prove("sixteen derivatives", len(xd) == 16)
    xd = vc.els(xd)
    vc.prove("the first thirteen are the aircraft derivative at the limited control", vc.eq(list(xd[:13]), list(vc.els(want[0])), tol=TOL))
    vc.prove("followed by the tracking errors of the reported load factor, roll rate and side-force term",
             vc.eq(list(xd[13:]), [nz - ur[0], ps - ur[1], nyr - ur[2]], tol=TOL))
    vc.prove("reported normal load factor is the aircraft's", vc.eq(nz, want[1], tol=TOL))
    m = want[0]
    if v2:
        vc.prove("stability-axis roll rate (v2)", vc.eq(ps, m[6] * vc.cos(m[1]) + m[8] * vc.sin(m[1]), tol=1e-7, scale=None if vc.symbolic else abs(m[6]) + abs(m[8])))
        vc.prove("side force plus yaw rate (v2)", vc.eq(nyr, want[2] + m[8], tol=TOL))
    else:
        vc.prove("stability-axis roll rate", vc.eq(ps, xc[4] * vc.cos(xc[0]) + xc[5] * vc.sin(xc[0]), tol=TOL))
        vc.prove("side force plus yaw rate", vc.eq(nyr, want[2] + xc[5], tol=TOL))
    vc.prove("seven reported inputs", len(urad) == 7)
    urad = vc.els(urad)
    vc.prove("reported throttle and surface deflections in radians", vc.eq(list(urad[:4]), [u[0]] + [v * vc.pi / 180 for v in u[1:]], tol=TOL))
    vc.prove("reported references", vc.eq(list(urad[4:]), ur[:3], tol=TOL))
