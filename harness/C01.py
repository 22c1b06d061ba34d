"""C01 Generator set-points map to the closest feasible point."""
from .lib import *
from . import region

CASES, case = registry()
BOUNDS = "one non-slack generator (classical or renewable); every field of its specification symbolic within [-1000, 1000] MW/MVAr subject to the documented rules, each optional field also absent; available power in [-1000, 1000] p.u., request in [-1000, 1000]^2 p.u.; base power 100 and symbolic in [1/100, 1000]; also after an earlier arbitrary use of the device and of another device with the same identifier"
STUBS = "the convex solver returns any feasible point whose objective is no larger than that of the points of the documented region used in the claim (its contract; existence and uniqueness of the optimum of a strictly convex problem on a closed non-empty set)"
OUTSIDE = "numerical accuracy of the QP solver; floating-point rounding"
ASSUMPTIONS = ["cvxpy solves the strictly convex problem it is given to optimality"]


def body(S, typ, pplus, qp, qm, pmin_given, sym_base, pmax_given=True, q_given=True, before=False):
    base = S.real("baseMVA", 0.01, 1000) if sym_base else 100
    big = 1000
    pmin = S.real("pmin", 0, big) if pmin_given else None
    pmax = S.real("pmax", 0, big) if pmax_given else None
    qmax = S.real("qmax", -big, big) if q_given else None
    qmin = S.real("qmin", -big, big) if q_given else None
    p_plus = S.real("pplus", 0, big) if pplus else None
    q_plus = S.real("qplus", -big, big) if qp else None
    q_minus = S.real("qminus", -big, big) if qm else None
    inf = float("inf")
    lo = pmin if pmin_given else 0.0
    hi = pmax if pmax_given else inf
    if pmax_given:
        S.assume(S.le(lo, pmax))
    if q_given:
        S.assume(S.le(qmin, qmax))
    if pplus:
        S.assume(S.And(S.le(lo, p_plus), S.lt(p_plus, pmax)))
    eqp = q_plus if qp else (qmax if q_given else inf)
    eqm = q_minus if qm else (qmin if q_given else -inf)
    if qp:
        S.assume(S.le(q_plus, qmax))
    if qm:
        S.assume(S.le(qmin, q_minus))
    if qp or qm:
        S.assume(S.le(eqm, eqp))
    cls = "RenewableGen" if typ == 2 else "ClassicalGen"
    spec = S.np.array([1, 0, typ, None, pmax, pmin, qmax, qmin, p_plus, None, q_plus, q_minus, None, None, None])
    gen = getattr(S.mod(DEVICES), cls)(spec, [0], base)

    u = (lambda x: x / base)
    d = dict(p_min=u(lo), p_max=u(hi) if pmax_given else inf, q_max=u(qmax) if q_given else inf, q_min=u(qmin) if q_given else -inf)
    if pplus and q_given:
        d.update(slope_plus=True, p_plus=u(p_plus), q_plus=u(eqp), q_minus=u(eqm))
    pot = S.real("pot", -1000, 1000)
    pt = (S.real("req_p", -1000, 1000), S.real("req_q", -1000, 1000))
    y = (S.real("y_p", -1000, 1000), S.real("y_q", -1000, 1000))
    # available power, limited to the range of the generator
    top = S.min(pot, d["p_max"]) if pmax_given else pot
    d["p_pot"] = S.max(top, d["p_min"])
    R = region.gen_region(S, d)
    # a point that is always in the region
    w = (d["p_min"], u(eqm) if q_given else 0.0)
    old = None
    if before:
        # an earlier use of the same generator, and one of another generator
        another = getattr(S.mod(DEVICES), cls)(S.np.array([1, 0, typ, None, 12, 2, 7, -6, 9, None, 3, -4, None, None, None]), [0], 25)
        old = (S.real("old_p", -1000, 1000), S.real("old_q", -1000, 1000))
        S.options(cp="contract", cp_points=[w, old])
        gen.p_pot = S.real("old_pot", -1000, 1000)
        gen.map_pq(old[0], old[1])
        another.p_pot = 0.25
        S.options(cp="contract", cp_points=[(0.25, 0.0)])
        another.map_pq(0.125, 0.0)
    S.options(cp="contract", cp_points=[y, w, pt])
    S.prefer(S.And(*[S.le(S.abs(v), 3) for v in (pt[0], pt[1], pot, y[0], y[1])]))
    gen.p_pot = pot
    if old:
        S.alt(S.And(S.eq(old[0], pt[0]), S.eq(old[1], pt[1])))
    gen.map_pq(pt[0], pt[1])
    x = (gen.p, gen.q)
    S.alt(S.And(S.eq(x[0], pt[0]), S.eq(x[1], pt[1])))
    S.alt(S.And(S.eq(y[0], pt[0]), S.eq(y[1], pt[1])))
    tol = None if S.symbolic else 2e-5
    S.check("the applied point is in the operating region", region.inside(S, R, x, tol))
    S.check("no other feasible point is closer", S.Implies(region.inside(S, R, y), S.le(region.dist2(x, pt), region.dist2(y, pt), tol)))
    S.check("a feasible request is applied unchanged", S.Implies(region.inside(S, R, pt), S.And(S.eq(x[0], pt[0], tol), S.eq(x[1], pt[1], tol))))
    S.check("the available power is the given one within the limits", S.eq(gen.p_pot, d["p_pot"]))
    if S.concrete:
        e = region.project(R, pt)
        S.check("the applied point is the projection", S.And(S.eq(x[0], e[0], 1e-4), S.eq(x[1], e[1], 1e-4)) if e is not None else S.le(0, 1))


def add(name, *a, **k):
    case(name, time=120)(lambda S: body(S, *a, **k))


add("classical, full specification", 1, 1, 1, 1, 1, 0)
add("renewable, full specification", 2, 1, 1, 1, 1, 0)
add("renewable, without P+", 2, 0, 1, 1, 0, 0)
add("renewable, without Q+ Q-", 2, 1, 0, 0, 1, 0)
add("classical, without Q-", 1, 1, 1, 0, 0, 0)
add("classical, without Q+", 1, 1, 0, 1, 0, 0)
add("classical, without any P+ Q+ Q-, symbolic base", 1, 0, 0, 0, 1, 1)
add("classical, PMAX absent", 1, 0, 0, 0, 1, 0, pmax_given=False)
add("classical, QMAX and QMIN absent", 1, 1, 0, 0, 1, 0, q_given=False)
add("classical, full specification, symbolic base", 1, 1, 1, 1, 1, 1)
add("classical, P+ only, used before", 1, 1, 0, 0, 1, 0, before=True)
add("classical, without any P+ Q+ Q-, used before", 1, 0, 0, 0, 1, 0, before=True)
add("renewable, without Q+ Q-, used before", 2, 1, 0, 0, 1, 0, before=True)
