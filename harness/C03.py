"""C03 Loads follow demand within limits at constant power factor."""
from .lib import *

CASES, case = registry()
BOUNDS = "one load; base power in [1/100, 1000]; PMIN, PMAX and demand real in [-1000, 1000] (each limit also absent); Q/P real in [-10, 10]; all values symbolic; also after an earlier arbitrary use of the device and of another device with the same identifier"
STUBS = "none"
OUTSIDE = "rounding of floating-point arithmetic (exact real arithmetic; replays run in IEEE arithmetic)"


def build(S, pmax_given, pmin_given):
    base = S.real("baseMVA", 0.01, 1000)
    qp = S.real("qp", -10, 10)
    pmax = S.real("pmax", -1000, 0) if pmax_given else None
    pmin = S.real("pmin", -1000, 1000) if pmin_given else None
    if pmin is not None:
        S.assume(S.le(pmin, pmax if pmax is not None else 0.0))
    S.prefer(S.eq(base, 100))
    spec = S.np.array([1, 0, -1, qp, pmax, pmin, None, None, None, None, None, None, None, None, None])
    load = S.mod(DEVICES).Load(spec, [0], base)
    return load, base, qp, pmax, pmin


def body(S, pmax_given, pmin_given, before=False):
    load, base, qp, pmax, pmin = build(S, pmax_given, pmin_given)
    if before:
        another = S.mod(DEVICES).Load(S.np.array([1, 0, -1, 0.5, -1, -20] + [None] * 9), [0], 25)
        load.map_pq(S.real("old", -1000, 1000))
        another.map_pq(-0.5)
    p = S.real("p", -1000, 1000)
    hi = pmax / base if pmax is not None else 0.0
    want = S.min(p, hi)
    if pmin is not None:
        want = S.max(want, pmin / base)
    load.map_pq(p)
    S.check("p is the demand clipped to the per-unit limits", S.eq(load.p, want))
    S.check("q is Q/P times p", S.eq(load.q, load.p * qp))
    S.check("a load never injects active power", S.le(load.p, 0))
    S.check("advertised p limits contain p", S.And(S.le(load.p_min, load.p), S.le(load.p, load.p_max)))
    S.check("advertised q limits contain q", S.And(S.le(load.q_min, load.q), S.le(load.q, load.q_max)))


for a in (0, 1):
    for b in (0, 1):
        case("load pmax=%d pmin=%d" % (a, b))(lambda S, a=a, b=b: body(S, a, b))
case("used before")(lambda S: body(S, 1, 1, True))
