"""C02 Storage set-points map to the closest point the charge allows."""
from .lib import *
from . import region

CASES, case = registry()
BOUNDS = "one storage unit; every field of its specification symbolic within [-1000, 1000] MW/MVAr/MWh subject to the documented rules, each optional field also absent; any state of charge within its limits; time step in [1/1000, 100] h; efficiency in [1/100, 1]; request in [-1000, 1000]^2 p.u.; base power 100 and symbolic in [1/100, 1000]; also after an earlier arbitrary use of the device and of another device with the same identifier"
STUBS = "the convex solver returns any feasible point whose objective is no larger than that of the points of the documented region used in the claim (its contract)"
OUTSIDE = "numerical accuracy of the QP solver; floating-point rounding; efficiency 0 (only one specification: known finding F19)"
ASSUMPTIONS = ["cvxpy solves the strictly convex problem it is given to optimality"]


def build(S, pplus=1, pminus=1, qp=1, qm=1, p_given=1, q_given=1, socmin=1, eff=1, sym_base=0):
    """An accepted storage unit and its documented per-unit limits."""
    base = S.real("baseMVA", 0.01, 1000) if sym_base else 100
    big, inf = 1000, float("inf")
    pmin = S.real("pmin", -big, 0) if p_given else None
    pmax = S.real("pmax", 0, big) if p_given else None
    qmax = S.real("qmax", -big, big) if q_given else None
    qmin = S.real("qmin", -big, big) if q_given else None
    if q_given:
        S.assume(S.le(qmin, qmax))
    p_plus = S.real("pplus", -big, big) if pplus else None
    p_minus = S.real("pminus", -big, big) if pminus else None
    q_plus = S.real("qplus", -big, big) if qp else None
    q_minus = S.real("qminus", -big, big) if qm else None
    if pplus:
        S.assume(S.And(S.le(pmin, p_plus), S.lt(p_plus, pmax)))
    if pminus:
        S.assume(S.And(S.lt(pmin, p_minus), S.le(p_minus, pmax)))
    if p_given:
        S.assume(S.le(p_minus if pminus else pmin, p_plus if pplus else pmax))
    eqp = q_plus if qp else (qmax if q_given else inf)
    eqm = q_minus if qm else (qmin if q_given else -inf)
    if qp:
        S.assume(S.le(q_plus, qmax))
    if qm:
        S.assume(S.le(qmin, q_minus))
    if qp or qm:
        S.assume(S.le(eqm, eqp))
    smax = S.real("socmax", 0, big)
    smin = S.real("socmin", 0, big) if socmin else None
    if socmin:
        S.assume(S.le(smin, smax))
    e = S.real("eff", 0.01, 1) if eff else None
    spec = S.np.array([1, 0, 3, None, pmax, pmin, qmax, qmin, p_plus, p_minus, q_plus, q_minus, smax, smin, e])
    dev = S.mod(DEVICES).StorageUnit(spec, [0], base)
    u = lambda x: x / base
    d = dict(p_min=u(pmin) if p_given else -inf, p_max=u(pmax) if p_given else inf, q_max=u(qmax) if q_given else inf, q_min=u(qmin) if q_given else -inf,
             soc_max=u(smax), soc_min=u(smin) if socmin else 0.0, eff=e if eff else 1.0)
    if q_given:
        d.update(q_plus=u(eqp), q_minus=u(eqm))
        if pplus:
            d.update(slope_plus=True, p_plus=u(p_plus))
        if pminus:
            d.update(slope_minus=True, p_minus=u(p_minus))
    return dev, d


def body(S, before=False, **k):
    dev, d = build(S, **k)
    d["delta_t"] = dt = S.real("delta_t", 0.001, 100)
    d["soc"] = soc = S.real("soc", 0, 100000)
    S.assume(S.And(S.le(d["soc_min"], soc), S.le(soc, d["soc_max"])))
    if before:
        # an earlier use of the same unit, and one of another unit
        another = S.mod(DEVICES).StorageUnit(S.np.array([1, 0, 3, None, 13, -14, 3, -4, 9, -9, 2, -2, 21, 4, 0.5]), [0], 25)
        old = (S.real("old_p", -1000, 1000), S.real("old_q", -1000, 1000))
        dev.soc, t0 = S.real("old_soc", 0, 100000), S.real("old_dt", 0.001, 100)
        S.assume(S.And(S.le(d["soc_min"], dev.soc), S.le(dev.soc, d["soc_max"])))
        z = (S.real("z_p", -1000, 1000), S.real("z_q", -1000, 1000))
        S.assume(region.inside(S, region.gen_region(S, dict(d, delta_t=t0, soc=dev.soc)), z))
        S.options(cp="contract", cp_points=[old, z])
        dev.map_pq(old[0], old[1], t0)
        dev.update_soc(t0)
        another.soc = 0.5
        S.options(cp="contract", cp_points=[(0.0, 0.0)])
        another.map_pq(0.125, 0.0, 0.5)
        another.update_soc(0.5)
    dev.soc = soc
    pt = (S.real("req_p", -1000, 1000), S.real("req_q", -1000, 1000))
    y = (S.real("y_p", -1000, 1000), S.real("y_q", -1000, 1000))
    R = region.gen_region(S, d)
    S.options(cp="contract", cp_points=[y, pt])
    S.prefer(S.And(*[S.le(S.abs(v), 3) for v in (pt[0], pt[1], y[0], y[1])]), S.eq(dt, 1))
    # some point of the region exists (the claim is about requests in a non-empty region)
    S.assume(region.inside(S, R, y))
    dev.map_pq(pt[0], pt[1], dt)
    x = (dev.p, dev.q)
    S.alt(S.And(S.eq(x[0], pt[0]), S.eq(x[1], pt[1])))
    S.alt(S.And(S.eq(y[0], pt[0]), S.eq(y[1], pt[1])))
    tol = None if S.symbolic else 2e-5
    S.check("the applied point is in the operating region and sustainable", region.inside(S, R, x, tol))
    S.check("no other feasible point is closer", S.le(region.dist2(x, pt), region.dist2(y, pt), tol))
    S.check("a feasible request is applied unchanged", S.Implies(region.inside(S, R, pt), S.And(S.eq(x[0], pt[0], tol), S.eq(x[1], pt[1], tol))))
    S.check("mapping does not change the charge", S.eq(dev.soc, soc))
    # the same, stated on the charge itself
    after = S.ite(S.le(x[0], 0), soc - dt * d["eff"] * x[0], soc - dt * x[0] / d["eff"])
    S.check("the whole step stays within the charge limits", S.And(S.le(d["soc_min"], after, tol and 1e-3), S.le(after, d["soc_max"], tol and 1e-3)))
    if S.concrete:
        e = region.project(R, pt)
        S.check("the applied point is the projection", S.And(S.eq(x[0], e[0], 1e-4), S.eq(x[1], e[1], 1e-4)) if e is not None else S.le(0, 1))


@case("efficiency 0", time=60)
def _(S):
    spec = S.np.array([1, 0, 3, None, 50, -50, 20, -20, None, None, None, None, 50, 10, 0.0])
    dev = S.mod(DEVICES).StorageUnit(spec, [0], 100)
    dev.soc = soc = S.real("soc", 0.1, 0.5)
    dt = S.real("delta_t", 0.001, 100)
    pt = (S.real("req_p", -2, 2), S.real("req_q", -2, 2))
    e = lambda p, q: (S.max(-0.5, S.min(p, 0.0)), S.max(-0.2, S.min(q, 0.2)))
    want = e(*pt)
    S.options(cp="contract", cp_points=[want, pt])
    out = S.call(lambda: (dev.map_pq(pt[0], pt[1], dt), dev.update_soc(dt)))
    zero = S.And(not out.ok, out.isa("ZeroDivisionError")) if not out.ok else False
    S.check("an accepted storage unit is mapped and stepped", out.ok, known=[("F19", zero)])
    if out.ok:
        tol = None if S.symbolic else 2e-5
        S.check("nothing can be discharged", S.And(S.eq(dev.p, want[0], tol), S.eq(dev.q, want[1], tol)))
        S.check("charging adds nothing", S.eq(dev.soc, soc, tol))


def add(name, **k):
    case(name, time=120)(lambda S: body(S, **k))


add("full specification")
add("full specification, symbolic base", sym_base=1)
add("without P+", pplus=0)
add("without P-", pminus=0)
add("without Q+ Q-", qp=0, qm=0)
add("without Q-, EFF", qm=0, eff=0)
add("without P+ P- Q+ Q- SOC_MIN", pplus=0, pminus=0, qp=0, qm=0, socmin=0)
add("PMIN PMAX absent", p_given=0, pplus=0, pminus=0, qp=0, qm=0)
add("QMIN QMAX absent", q_given=0, qp=0, qm=0)
add("without Q+ Q-, used before", qp=0, qm=0, before=True)
add("without P+ P- Q+ Q-, used before", pplus=0, pminus=0, qp=0, qm=0, before=True)
