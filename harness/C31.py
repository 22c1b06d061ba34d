"""C31 ANM6Easy initial states are consistent and within limits."""
from .easy import *

CASES, case = registry()
BOUNDS = "every value the random generator can give (time of day, reactive powers, charge, start day); start dates drawn or given (any day of 2019 to 2023)"
STUBS = "the sparse linear solver returns zeros and the simulator is told that this is a solution; the convex solver returns a feasible point that is at least as close to the request as the request itself is"
OUTSIDE = "rounding"
Q = dict(time=100, branch_ms=150, branch_nl_ms=150, implied_ms=80, cp_infeasible=False)


def consistent(S, v, row, base):
    t = v[-1]
    n = N_DEV
    S.check("the initial state has the documented size", len(v) == 18)
    S.check("the time of day is a quarter-hour", S.And(S.ge(t, 0), S.le(t, 95), S.eq(t, S.floor(t + 0.5))))
    for d in LOADS:
        agree(S, "initial demands are those of the time of day", d, v[d], t)
        S.check("loads have a constant power factor", S.eq(v[n + d], row[d][3] * v[d]))
        S.check("initial demands lie within the limits", S.And(S.le(row[d][5], v[d]), S.le(v[d], row[d][4])))
    for k, d in enumerate(GENS):
        m = v[2 * n + 1 + k]
        agree(S, "initial available powers are those of the time of day", d, m, t)
        S.check("generators start at their available power", S.eq(v[d], m))
        kn = [("F30", S.And(near(S, m, typo(S, d, t)), S.Or(S.And(t >= 45, t <= 51), S.And(t >= 65, t <= 71))))] if d == 2 else []
        S.check("initial available powers lie within the limits", S.And(S.le(row[d][5], m), S.le(m, row[d][4])), known=kn)
        S.check("initial reactive powers lie within the limits", S.And(S.le(row[d][7], v[n + d], 1e-6), S.le(v[n + d], row[d][6], 1e-6)))
    S.check("the initial charge lies within the limits", S.And(S.le(row[6][13], v[2 * n], 1e-6), S.le(v[2 * n], row[6][12], 1e-6)))
    S.check("the storage unit and the slack device start at rest", S.And(*[S.eq(v[i], 0) for i in (0, 6, n, n + 6)]))


def initial(S):
    env = S.mod(EASY).ANM6Easy()
    cs = rows(S)
    sim = Standin(S, env, cs, keys=())
    env.reset(seed=3)
    consistent(S, sim.inits[-1], {r[0]: r for r in cs.devices}, cs.base)


def dates(S, given):
    env = S.mod(EASY).ANM6Easy()
    sim = Standin(S, env, rows(S), keys=())
    D, T = S.dt.datetime, S.dt.timedelta
    opt = {}
    if given:
        d0 = D(2019, 1, 1) + T(days=S.int("day", 0, 1800))
        opt = dict(options={"date_init": d0})
    for k in range(2):
        if k:
            env.step(S.np.zeros(6))
        env.reset(**(dict(seed=4) if not k else {}), **opt)
        t = env.state[-1]
        day = d0 if given else D(2020, 1, 1)
        rest = (env.date - day).total_seconds()
        if not given:
            days = S.floor(rest / 86400)
            S.check("the drawn start date lies within the year", S.And(days >= 0, days <= 365))
            rest = rest - days * 86400
        S.check("the calendar date matches the time index", S.eq(rest, t * 900))


def reported(S):
    """With the real simulator."""
    env = S.mod(EASY).ANM6Easy()
    cs = rows(S)
    row = {r[0]: r for r in cs.devices}
    real = env.simulator.reset
    seen = []

    def reset(v):
        seen.append(list(v))
        S.options(cp="contract", cp_points=[(v[i] / cs.base, v[N_DEV + i] / cs.base) for i in (2, 4, 6)], cp_own=True)
        S.linear([])
        real(v)
        return True

    S.patch_obj(env.simulator, "reset", reset)
    env.reset(seed=3)
    v, s, n = seen[-1], list(env.state), N_DEV
    t = v[-1]
    # feasible points of the generators: within the slanted limits
    tol = None if S.symbolic else 1e-3
    for d in LOADS:
        S.check("the environment reports the initial loads", S.And(S.eq(s[d], v[d], tol), S.eq(s[n + d], v[n + d], tol)))
    for k, d in enumerate(GENS):
        m = S.min(v[2 * n + 1 + k], row[d][4])
        S.check("the environment reports the initial available powers", S.eq(s[2 * n + 1 + k], m, tol))
        lo, hi = region_q(S, row[d], v[d])
        inside = S.And(S.le(v[d], row[d][4]), S.le(lo, v[n + d]), S.le(v[n + d], hi))
        S.check("the environment reports the initial injections the generators can make", S.Implies(inside, S.And(S.eq(s[d], v[d], tol), S.eq(s[n + d], v[n + d], tol))))
    S.check("the environment reports the initial charge", S.eq(s[2 * n], v[2 * n], tol))
    S.check("the environment reports the time of day", S.eq(s[-1], t))
    S.check("the environment reports the storage unit at rest", S.And(S.eq(s[6], 0, tol), S.eq(s[n + 6], 0, tol)))


def region_q(S, r, p):
    """Reactive limits at an active power (slanted above P+)."""
    pmax, pp, qmax, qmin, qp, qm = r[4], r[8], r[6], r[7], r[10], r[11]
    f = (p - pp) / (pmax - pp)
    return S.ite(p <= pp, qmin, qmin + (qm - qmin) * f), S.ite(p <= pp, qmax, qmax + (qp - qmax) * f)


case("initial states")(initial)
case("drawn dates")(lambda S: dates(S, False))
case("given dates")(lambda S: dates(S, True))
case("reported state", **Q)(reported)
