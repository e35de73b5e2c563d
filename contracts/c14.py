"""C14 relative position and velocity are differences of the absolute ones

Postcondition of entity_relative_position / entity_relative_velocity for every ordered triple of spacecraft models and all states."""
from contracts import common as cm
from vf.registry import contract

ASSUME = ["the simulator given to an entity maps entity names to entities in `sim_entities`"]


class Sim:
    def __init__(self, *es):
        self.sim_entities = {e.name: e for e in es}


def trio(vc, kinds, how):
    es = []
    for i, k in enumerate(kinds):
        m, n = [x for x in cm.spacecraft() if x[1] == k][0]
        es.append(cm.make(vc, m, n, "abc"[i], nm="abc"[i], free=True))
    sim = Sim(*es)
    if how == "constructor":
        out = []
        for i, e in enumerate(es):
            f = type(e)(sim=sim, name=e.name)
            f.state = e.state
            out.append(f)
            sim.sim_entities[e.name] = f
        return out, sim
    for e in es:
        e.set_sim(sim)
    return es, sim


@contract("relative", lambda: [(a[1], b[1], c[1]) for a in cm.spacecraft() for b in cm.spacecraft() for c in (cm.spacecraft() if a == b else [a])], time=40, samples=20)
def relative(vc, ka, kb, kc):
    (a, b, c), sim = trio(vc, (ka, kb, kc), vc.choice("sim", ("set_sim", "constructor")))
    for e, o in ((a, b), (b, c)):
        if hasattr(e, "register_lead") and vc.choice("lead of " + e.name, (False, True)):
            e.register_lead(o)
    single = None
    if not vc.symbolic:
        if vc.choice("double precision", (False, True)):
            for e in (a, b, c):
                e.state = (vc.np.asarray(e.state, dtype=vc.np.float64) + 0) * (1 + vc.real("spread " + e.name, lo=0, hi=1e-7))
        single = {e.name for e in (a, b, c) if e.state.dtype != vc.np.float64}
        big = max(abs(float(x)) for e in (a, b, c) for x in e.state)
    tol = lambda x, y: {} if vc.symbolic else {"tol": 1e-5} if {x.name, y.name} <= single else {"tol": 1e-12, "scale": big}  # noqa: E731
    snap = [(vc.els(vc.copy(e.state)), vc.els(vc.copy(e.state_dot))) for e in (a, b, c)]
    for what, acc in (("entity_relative_position", "position"), ("entity_relative_velocity", "velocity")):
        rel = lambda x, y: getattr(x, what)(y.name)  # noqa: E731
        ab = rel(a, b)
        vc.prove("relative %s is the other's minus the own" % acc, vc.eq(ab, [y - x for x, y in zip(vc.els(getattr(a, acc)), vc.els(getattr(b, acc)))], **tol(a, b)))
        vc.prove("three components", len(vc.els(ab)) == 3)
        vc.prove("antisymmetric", vc.eq(ab, [-x for x in vc.els(rel(b, a))], tol=1e-5))
        vc.prove("zero for the entity itself", vc.eq(rel(a, a), [0, 0, 0]))
        big = max(abs(float(x)) for x in vc.els(a.state)) if not vc.symbolic else 0
        vc.prove("additive along chains", vc.eq(rel(a, c), [x + y for x, y in zip(vc.els(ab), vc.els(rel(b, c)))], tol=1e-5, scale=10 * big))
        try:
            ab[0] = 99
        except ValueError:
            pass
    for e, (s, d) in zip((a, b, c), snap):
        vc.prove("querying changes nothing", vc.and_(vc.same(e.state, s), vc.same(e.state_dot, d)))
    vc.prove("the simulator is not changed", sorted(sim.sim_entities) == ["a", "b", "c"])
    # the answer follows the present: states move on, entities are replaced, the simulator is exchanged
    then = vc.choice("then", ("moved", "replaced", "other simulator"))
    m, n = [x for x in cm.spacecraft() if x[1] == kb][0]
    d = cm.make(vc, m, n, "d", nm="b", free=True)
    if then == "moved":
        b.state = d.state
        if vc.choice("own state too", (False, True)):
            a.state = vc.copy(a.state) + 1 if ka == "CWHSpacecraft" or "2d" in ka.lower() else a.state
        now = b
    else:
        now = d
        if then == "replaced":
            sim.sim_entities["b"] = d
        else:
            a.set_sim(Sim(a, d, c))
    for what, acc in (("entity_relative_position", "position"), ("entity_relative_velocity", "velocity")):
        vc.prove("relative %s follows the entity now registered" % acc,
                 vc.eq(getattr(a, what)("b"), [y - x for x, y in zip(vc.els(getattr(a, acc)), vc.els(getattr(now, acc)))], tol=1e-5))
