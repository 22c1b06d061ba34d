"""C06 Device limits are per-unit and absent fields take documented defaults."""
from .lib import *
from . import net
from .C05 import device, rules, fields, INF, P, Q, PQX, SOC

CASES, case = registry()
BOUNDS = "one device of each type with every numeric field an arbitrary real in [-1000, 1000] or absent (valid specifications); base power symbolic in [1/100, 1000]; networks with up to 2 generators of each kind and 2 storage units in every identifier order listed; also of a description from which something has been constructed before"
STUBS = "none"
OUTSIDE = "rounding"


def expected(typ, f):
    """Documented values in the units of the specification."""
    g = lambda c, d=None: f[c] if f.get(c) is not None else d
    if typ == -1:
        return dict(p_max=g("P_MAX", 0.0), p_min=g("P_MIN", -INF), qp_ratio=g("Q/P"))
    e = dict(p_max=g("P_MAX", INF), q_max=g("Q_MAX", INF), q_min=g("Q_MIN", -INF))
    e["p_min"] = g("P_MIN", 0.0 if typ in (1, 2) else -INF)
    e["p_plus"], e["q_plus"], e["q_minus"] = g("P+", e["p_max"]), g("Q+", e["q_max"]), g("Q-", e["q_min"])
    if typ == 3:
        e["p_minus"] = g("P-", e["p_min"])
        e["soc_max"], e["soc_min"], e["eff"] = g("SOC_MAX"), g("SOC_MIN", 0.0), g("EFF", 1.0)
    return e


def body(S, typ, names, optional, twice=False):
    base = S.real("baseMVA", 0.01, 1000)
    S.prefer(S.eq(base, 50))
    f = fields(S, names, optional)
    S.assume(rules(S, typ, f))
    o = device(S, typ, f, base, twice=twice)
    S.check("a valid specification is accepted", o.ok)
    if not o.ok:
        return
    d = o.value
    for k, v in sorted(expected(typ, f).items()):
        pu = v if k in ("eff", "qp_ratio") or v in (INF, -INF, 0.0) and isinstance(v, float) else v / base
        S.check("%s is the specified value in per-unit or its default" % k, S.eq(getattr(d, k), pu))


def add(name, *a, **k):
    case(name, time=k.pop("time", 100), tier=k.pop("tier", "quick"), max_replays=6)(lambda S: body(S, *a, **k))


add("load", -1, ["Q/P"] + P, P)
for t, n in ((0, "slack"), (1, "classical"), (2, "renewable")):
    add("%s, P Q limits" % n, t, P + Q, P + Q)
    add("%s, all" % n, t, P + Q + PQX + ["P-"], ["P+"] if t == 0 else PQX)
add("storage, P Q limits", 3, P + Q + ["SOC_MAX"], P + Q)
add("storage, P set-points", 3, P + ["P+", "P-", "SOC_MAX"], ["P+", "P-"])
add("storage, Q set-points", 3, ["P_MAX"] + Q + PQX + ["SOC_MAX"], PQX)
add("storage, all optional", 3, P + Q + PQX + ["P-"] + SOC, PQX + ["P-"], tier="thorough", time=600)
add("load, described once", -1, ["Q/P"] + P, [], True)
add("renewable, described once", 2, P + Q + PQX, [], True)
add("storage, described once", 3, P + Q + SOC, [], True)
add("storage, charge", 3, SOC, ["SOC_MIN", "EFF"])

ORDERS = {"ordered": [0, 1, 2, 3, 4, 5, 6], "gaps and mixed": [7, 3, 12, 1, 20, 4, 9], "reversed": [16, 14, 12, 9, 6, 3, 2]}


def space(S, ids, env, again=False):
    """Two loads/generators/storage units in the given identifier order; all limits symbolic."""
    base = S.real("baseMVA", 1, 1000)
    S.prefer(S.eq(base, 50))
    kinds = ["slack", "gen", "gen", "gen", "load", "des", "des"]
    lim, rows = {}, []
    for i, k in zip(ids, kinds):
        if k == "slack":
            rows.append(net.slack(i, 0))
        elif k == "load":
            rows.append(net.load(i, 1))
        else:
            pmin = S.real("pmin%d" % i, 0, 500) if k == "gen" else S.real("pmin%d" % i, -500, 0)
            pmax, qmin, qmax = S.real("pmax%d" % i, 0, 500), S.real("qmin%d" % i, -500, 500), S.real("qmax%d" % i, -500, 500)
            S.assume(S.And(S.le(pmin, pmax), S.le(qmin, qmax)))
            lim[i] = (k, (pmin, pmax), (qmin, qmax))
            rows.append(net.gen(i, 1, 1 + i % 2, pmax, pmin, qmax, qmin) if k == "gen" else net.storage(i, 1, pmax, pmin, qmax, qmin))
    nw = net.network(S, [net.bus(0, True), net.bus(1)], [net.branch(0, 1)], rows, base)
    gens = [i for i in sorted(lim) if lim[i][0] == "gen"]
    des = [i for i in sorted(lim) if lim[i][0] == "des"]
    if again:
        # the description was used before, and another network
        S.mod(SIM).Simulator(nw, 0.25, 100)
        S.mod(SIM).Simulator(net.network(S, [net.bus(0, True), net.bus(1)], [net.branch(0, 1)], [r if r[2] in (0, -1) else net.gen(r[0], 1, r[2], 12, 2, 7, -6) if r[2] in (1, 2) else net.storage(r[0], 1, 13, -14, 3, -4) for r in rows], 25), 0.25, 100).get_action_space()
    if not env:
        sim = S.mod(SIM).Simulator(nw, 0.25, 100)
        for got, who, j in zip(sim.get_action_space(), (gens, gens, des, des), (1, 2, 1, 2)):
            S.check("action bounds list exactly the controllable devices", sorted(got) == who)
            for i in who:
                S.check("action bounds are the specified limits in MW and MVAr", S.And(S.eq(got[i][0], lim[i][j][0]), S.eq(got[i][1], lim[i][j][1])))
        return
    e = S.mod(ENV).ANMEnv(nw, "state", 0, 0.25, 0.9, 100)
    want = [lim[i][j] for who, j in ((gens, 1), (gens, 2), (des, 1), (des, 2)) for i in who]
    S.check("the action space has one entry per control", tuple(e.action_space.shape) == (len(want),))
    S.check("the action space is the specified limits, ordered by device", S.And(S.eq(list(e.action_space.low), [w[0] for w in want]), S.eq(list(e.action_space.high), [w[1] for w in want])))


for n, ids in ORDERS.items():
    case("action bounds, %s" % n)(lambda S, ids=ids: space(S, ids, False))
    case("action space, %s" % n)(lambda S, ids=ids: space(S, ids, True))
case("action bounds, described once")(lambda S: space(S, ORDERS["gaps and mixed"], False, True))
case("action space, described once")(lambda S: space(S, ORDERS["gaps and mixed"], True, True))
