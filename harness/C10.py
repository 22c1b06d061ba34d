"""C10 Branch and bus specifications are accepted exactly when valid."""
from .lib import *
import math

CASES, case = registry()
BOUNDS = "one branch with every numeric field an arbitrary real in [-1000, 1000] or absent and end buses over existing, unknown and absent identifiers; one bus with every numeric field an arbitrary real in [-1000, 1000] or absent, its type over {0, 1, 2, -1, 1/2, absent} and its identifier an arbitrary integer or absent; base power symbolic in [1/100, 1000]; also of a description from which something has been constructed before"
STUBS = "none"
OUTSIDE = "NaN or non-numeric fields; rounding"
INF = float("inf")
FIELDS = ["r", "x", "b", "rate", "tap", "shift"]


def branch(S, f, base, a=0, b=2, buses=(0, 2), twice=False):
    row = [a, b] + [f.get(c) for c in FIELDS]
    row = S.np.array(row)
    if twice:
        # the description was used before
        S.call(S.mod(BRANCH).TransmissionLine, row, base, list(buses))
    return S.call(S.mod(BRANCH).TransmissionLine, row, base, list(buses))


def rules(S, f):
    v = lambda c, d: f[c] if f.get(c) is not None else d
    r, x = v("r", 0), v("x", 0)
    conds = [S.le(0, v(c, 0)) for c in ("r", "x", "b", "rate")]
    conds += [S.Or(S.Not(S.eq(r, 0, 0)), S.Not(S.eq(x, 0, 0))), S.gt(v("tap", 1), 0, 0), S.And(S.le(0, v("shift", 0)), S.le(v("shift", 0), 360))]
    return S.And(*conds)


def body(S, names, optional, fixed={}, twice=False):
    base = S.real("baseMVA", 0.01, 1000)
    f = dict(fixed)
    for n in names:
        if n in optional and not S.bool("has " + n):
            continue
        f[n] = S.real(n, -1000, 1000)
    S.prefer(S.eq(base, 50), *[S.eq(S.floor(f[n]), f[n]) for n in names if n in f])
    o = branch(S, f, base, twice=twice)
    ok = rules(S, f)
    if not o.ok:
        S.check("a rejected branch is invalid", S.Not(ok), exact=True)
        S.check("the error is the branch error", o.isa("BranchSpecError"))
        return
    S.check("an accepted branch is valid", ok, exact=True)
    br = o.value
    v = lambda c, d: f[c] if f.get(c) is not None else d
    S.check("ends are kept", S.And(br.f_bus == 0, br.t_bus == 2))
    S.check("resistance, reactance and charging are as given or 0", S.And(S.eq(br.r, v("r", 0)), S.eq(br.x, v("x", 0)), S.eq(br.b, v("b", 0))))
    S.check("the rate is per-unit or unlimited", S.eq(br.rate, f["rate"] / base if f.get("rate") is not None else INF))
    S.check("the tap is as given or 1", S.eq(br.tap_magn, v("tap", 1)))
    S.check("the phase shift is in radians or 0", S.eq(br.shift * 180, v("shift", 0) * math.pi))


case("impedance")(lambda S: body(S, ["r", "x"], ["r", "x"]))
case("charging and rate")(lambda S: body(S, ["b", "rate"], ["b", "rate"], dict(r=0.1, x=0.1)))
case("tap and shift")(lambda S: body(S, ["tap", "shift"], ["tap", "shift"], dict(r=0.1, x=0.1)))
case("all fields")(lambda S: body(S, FIELDS, []))
case("described once")(lambda S: body(S, FIELDS, [], twice=True))
case("any subset of fields", tier="thorough", time=600)(lambda S: body(S, FIELDS, FIELDS))


@case("end buses")
def ends(S):
    opts = [0, 2, None, 1, -1, 5]
    a, b = S.choice("F_BUS", opts), S.choice("T_BUS", opts)
    o = branch(S, dict(r=0.1, x=0.2), 100, a, b)
    good = a in (0, 2) and b in (0, 2) and a is not None and b is not None
    S.check("accepted exactly when both ends exist", o.ok == good)
    if not o.ok:
        S.check("the error is the branch error", o.isa("BranchSpecError"))


case("bus")(lambda S: bus(S))
case("bus, described once")(lambda S: bus(S, True))


def bus(S, twice=False):
    typ = S.choice("BUS_TYPE", [0, 1, 2, -1, 0.5, None])
    ident = S.int("BUS_ID", 0, 100) if S.bool("has BUS_ID") else None
    f = {}
    for n in ("BASE_KV", "VMAX", "VMIN"):
        f[n] = S.real(n, -1000, 1000) if S.bool("has " + n) else None
    row = S.np.array([ident, typ, f["BASE_KV"], f["VMAX"], f["VMIN"]])
    if twice:
        S.call(S.mod(BUS).Bus, row)
    o = S.call(S.mod(BUS).Bus, row)
    kv, vmax, vmin = f["BASE_KV"], f["VMAX"], f["VMIN"]
    ok = [typ in (0, 1) and typ is not None, ident is not None, kv is not None, vmax is not None, typ == 0 or vmin is not None]
    if all(ok):
        valid = [S.gt(kv, 0), S.le(0, vmax)]
        if typ == 1:
            valid += [S.le(0, vmin), S.le(vmin, vmax)]
        valid = S.And(*valid)
    else:
        valid = S.le(1, 0)
    if not o.ok:
        S.check("a rejected bus is invalid", S.Not(valid), exact=True)
        S.check("the error is the bus error", o.isa("BusSpecError"))
        return
    S.check("an accepted bus is valid", valid, exact=True)
    u = o.value
    S.check("bus fields are kept", S.And(S.eq(u.id, ident), u.type == typ, u.is_slack == (typ == 0), S.eq(u.baseKV, kv), S.eq(u.v_max, vmax)))
    if vmin is not None:
        S.check("the lower voltage limit is kept", S.eq(u.v_min, vmin))
    else:
        S.check("a slack bus without lower limit is not limited", S.le(u.v_min, 0))
    if typ == 0:
        S.check("the slack voltage is the upper limit", S.eq(u.v_slack, vmax))
    else:
        S.check("other buses have no slack voltage", S.call(lambda: u.v_slack).isa("AttributeError"))
