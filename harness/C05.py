"""C05 Device specifications are accepted exactly when they are valid."""
from .lib import *

CASES, case = registry()
BOUNDS = "one device of each documented type; every numeric field of its specification row an arbitrary real in [-1000, 1000] or absent; identifiers and type over small sets including absent and unknown ones; base power 100 and symbolic in [1/100, 1000]; also of a description from which something has been constructed before"
STUBS = "none"
OUTSIDE = "NaN or non-numeric fields; rounding"
INF = float("inf")


def device(S, typ, f, base, bus=0, dev_id=1, buses=(0, 2), twice=False):
    cls = {-1: "Load", 0: "ClassicalGen", 1: "ClassicalGen", 2: "RenewableGen", 3: "StorageUnit"}.get(typ, "ClassicalGen")
    row = [dev_id, bus, typ] + [f.get(c) for c in COLS[3:]]
    row = S.np.array(row)
    if twice:
        # the description was used before
        S.call(getattr(S.mod(DEVICES), cls), row, list(buses), base)
    return S.call(getattr(S.mod(DEVICES), cls), row, list(buses), base)


def rules(S, typ, f):
    """The documented validity rules, as a claim, in the units of the specification."""
    g = f.get
    le = lambda a, b: True if a is None or b is None or a == -INF or b == INF else (False if a == INF or b == -INF else S.le(a, b))
    conds = []
    pmax, pmin, qmax, qmin = g("P_MAX"), g("P_MIN"), g("Q_MAX"), g("Q_MIN")
    if typ == -1:
        if g("Q/P") is None:
            return S.le(1, 0)
        conds.append(le(pmax, 0))
        conds.append(le(pmin, 0.0 if pmax is None else pmax))
    else:
        if typ != 0:
            conds.append(le(0, pmax))
        if typ in (1, 2):
            conds.append(le(0, pmin))
        if typ == 3:
            conds.append(le(pmin, 0))
        lo = pmin if pmin is not None else (0.0 if typ in (1, 2) else -INF)
        hi = pmax if pmax is not None else INF
        qhi = qmax if qmax is not None else INF
        qlo = qmin if qmin is not None else -INF
        conds += [le(lo, hi), le(qlo, qhi)]
        pp = g("P+") if g("P+") is not None else hi
        qp = g("Q+") if g("Q+") is not None else qhi
        qm = g("Q-") if g("Q-") is not None else qlo
        conds += [le(lo, pp), le(pp, hi), le(qp, qhi), le(qlo, qm), le(qm, qp)]
        if typ == 3:
            pm = g("P-") if g("P-") is not None else lo
            conds += [le(lo, pm), le(pm, hi), le(pm, pp)]
            smax, smin, eff = g("SOC_MAX"), g("SOC_MIN"), g("EFF")
            if smax is None:
                return S.le(1, 0)
            conds += [le(0, smax), le(0, smin), le(smin if smin is not None else 0.0, smax), le(0, eff), le(eff, 1)]
    return S.And(*[c if not isinstance(c, bool) else S.le(0 if c else 1, 0) for c in conds])


ERR = {-1: "LoadSpecError", 0: "GenSpecError", 1: "GenSpecError", 2: "GenSpecError", 3: "StorageSpecError"}


def fields(S, names, optional):
    f = {}
    for n in names:
        if n in optional and not S.bool("has " + n):
            continue
        f[n] = S.real(n, -1000, 1000) if n not in ("EFF", "Q/P") else S.real(n, -10, 10)
    return f


def body(S, typ, names, optional, sym_base=False, twice=False):
    base = S.real("baseMVA", 0.01, 1000) if sym_base else 100
    f = fields(S, names, optional)
    o = device(S, typ, f, base, twice=twice)
    ok = rules(S, typ, f)
    S.prefer(*[S.eq(S.floor(v), v) for v in f.values()])
    if o.ok:
        S.check("an accepted specification is valid", ok, exact=True)
    else:
        S.check("a rejected specification is invalid", S.Not(ok), exact=True)
        S.check("the error is the device error of its type", o.isa(ERR[typ]))


def add(name, *a, **k):
    case(name, time=k.pop("time", 100), tier=k.pop("tier", "quick"), max_replays=8)(lambda S: body(S, *a, **k))


P, Q, PQX, SOC = ["P_MAX", "P_MIN"], ["Q_MAX", "Q_MIN"], ["P+", "Q+", "Q-"], ["SOC_MAX", "SOC_MIN", "EFF"]
add("load", -1, ["Q/P"] + P, ["Q/P"] + P)
add("load, symbolic base", -1, ["Q/P"] + P, P, True)
for t, n in ((0, "slack"), (1, "classical"), (2, "renewable")):
    add("%s, P and Q limits" % n, t, P + Q, P + Q)
    add("%s, P limits and P+" % n, t, P + ["P+", "P-"], P + ["P+"])
    add("%s, Q limits, Q+ and Q-" % n, t, Q + ["Q+", "Q-"], Q + ["Q+", "Q-"])
add("renewable, all fields", 2, P + Q + PQX, [])
add("classical, all fields, symbolic base", 1, P + Q + PQX, [], True)
add("storage, P limits", 3, P + ["P+", "P-", "SOC_MAX"], P + ["P+", "P-"])
add("storage, Q limits", 3, Q + ["Q+", "Q-", "SOC_MAX"], Q + ["Q+", "Q-"])
add("storage, charge", 3, SOC, SOC)
add("storage, all fields", 3, P + Q + PQX + ["P-"] + SOC, [])
add("load, described once", -1, ["Q/P"] + P, [], True, True)
add("renewable, described once", 2, P + Q + PQX, [], True, True)
add("storage, described once", 3, P + Q + SOC, [], True, True)
add("storage, charge, symbolic base", 3, SOC + P, P, True)
for t, n in ((0, "slack"), (1, "classical"), (2, "renewable")):
    add("%s, any subset of fields" % n, t, P + Q + PQX + ["P-"], P + Q + PQX, tier="thorough", time=800)
add("storage, any subset of fields", 3, P + Q + PQX + ["P-"] + SOC, P + Q + PQX + ["P-"], tier="thorough", time=800)


@case("identifiers and type")
def ident(S):
    typ = S.choice("DEV_TYPE", [-1, 0, 1, 2, 3, None, 4, -2, 1.5])
    bus = S.choice("BUS_ID", [0, 2, None, 1, -1])
    dev = S.choice("DEV_ID", [1, 7, None])
    f = {"Q/P": 0.5, "P_MAX": 0.0, "P_MIN": 0.0, "SOC_MAX": 10.0}
    o = device(S, typ, f, 100, bus, dev)
    ok = typ in (-1, 0, 1, 2, 3) and typ is not None and bus in (0, 2) and bus is not None and dev is not None
    S.check("accepted exactly when identifiers and type are known", o.ok == ok)
    if not o.ok:
        S.check("the error is the device error", o.isa("DeviceSpecError"))
    else:
        S.check("identifiers are kept", S.And(o.value.dev_id == dev, o.value.bus_id == bus, o.value.type == typ, o.value.is_slack == (typ == 0)))
