"""C04 State of charge is an exact energy account within its limits."""
from .lib import *
from . import C02

CASES, case = registry()
BOUNDS = "one storage unit with symbolic specification (as C02); one step from any state of charge, and sequences of up to 3 (thorough: 5) steps with arbitrary requests; time step in [1/1000, 100] h, efficiency in [1/100, 1]"
STUBS = "the convex solver returns any feasible point (feasibility part of its contract)"
OUTSIDE = "longer sequences follow by induction from the single step, which starts from any state of charge; efficiency 0 (known finding, see C05); solver accuracy"


def setup(S, **k):
    dev, d = C02.build(S, **k)
    dt = S.real("delta_t", 0.001, 100)
    soc = S.real("soc", 0, 100000)
    S.assume(S.And(S.le(d["soc_min"], soc), S.le(soc, d["soc_max"])))
    S.prefer(S.eq(dt, 1))
    dev.soc = soc
    return dev, d, dt, soc


def step(S, **k):
    dev, d, dt, soc = setup(S, **k)
    pt = (S.real("req_p", -1000, 1000), S.real("req_q", -1000, 1000))
    dev.map_pq(pt[0], pt[1], dt)
    S.alt(S.And(S.eq(dev.p, pt[0]), S.eq(dev.q, pt[1])))
    p = dev.p
    dev.update_soc(dt)
    t = None if S.symbolic else 1e-5
    charge, dis = S.max(-p, 0.0), S.max(p, 0.0)
    S.check("the charge changes by exactly the accounted energy", S.eq(dev.soc, soc + dt * d["eff"] * charge - dt * dis / d["eff"], t))
    S.check("the charge stays within its limits", S.And(S.le(d["soc_min"], dev.soc), S.le(dev.soc, d["soc_max"])))
    S.check("the injection is not changed by the account", S.eq(dev.p, p))


def raw(S, **k):
    dev, d, dt, soc = setup(S, **k)
    p = S.real("p", -100000, 100000)
    q = S.real("q", -100000, 100000)
    dev.p, dev.q = p, q
    dev.update_soc(dt)
    S.check("the injection is not changed by the account", S.And(S.eq(dev.p, p), S.eq(dev.q, q)))
    exact = soc + dt * d["eff"] * S.max(-p, 0.0) - dt * S.max(p, 0.0) / d["eff"]
    S.check("any injection leaves the charge within its limits", S.And(S.le(d["soc_min"], dev.soc), S.le(dev.soc, d["soc_max"])))
    S.check("the charge is the account limited to the range", S.eq(dev.soc, S.min(S.max(exact, d["soc_min"]), d["soc_max"])))


def seq(S, n, **k):
    dev, d, dt, soc = setup(S, **k)
    t = None if S.symbolic else 1e-5
    inn, out = 0.0, 0.0
    for i in range(n):
        a, b = S.real("req_p%d" % i, -1000, 1000), S.real("req_q%d" % i, -1000, 1000)
        dev.map_pq(a, b, dt)
        S.alt(S.And(S.eq(dev.p, a), S.eq(dev.q, b)))
        p = dev.p
        dev.update_soc(dt)
        inn = inn + S.max(-p, 0.0) * dt
        out = out + S.max(p, 0.0) * dt
    S.check("the account telescopes", S.eq(dev.soc - soc, d["eff"] * inn - out / d["eff"], t))
    S.check("no more energy leaves than entered after losses", S.le(out, d["eff"] * (soc - d["soc_min"]) + d["eff"] * d["eff"] * inn, t))


case("one step")(lambda S: step(S))
case("one step, no efficiency given")(lambda S: step(S, eff=0, socmin=0, pplus=0, pminus=0, qp=0, qm=0))
case("one step, symbolic base")(lambda S: step(S, sym_base=1, qp=0, qm=0))
case("any injection")(lambda S: raw(S, pplus=0, pminus=0, qp=0, qm=0))
SIMPLE = dict(pplus=0, pminus=0, qp=0, qm=0)
case("two steps")(lambda S: seq(S, 2, **SIMPLE))
case("three steps", time=120)(lambda S: seq(S, 3, **SIMPLE))
case("five steps", tier="thorough", time=800)(lambda S: seq(S, 5, **SIMPLE))
case("three steps, full specification", tier="thorough", time=800)(lambda S: seq(S, 3))
