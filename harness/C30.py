"""C30 ANM6Easy follows its fixed daily profile."""
from .easy import *

CASES, case = registry()
BOUNDS = "any quarter-hour of the day, any other entries of the state in [-1000, 1000]; histories of up to 3 environment steps from any quarter-hour (by induction any number: the next variables depend on the time index alone)"
STUBS = "in the histories, the transition of the simulator is a stand-in with the same signature which reports arbitrary results"
OUTSIDE = "time indices that are not whole numbers in [0, 95]"


def variables(S, v, j):
    S.check("the next variables have the documented size", len(v) == 6)
    S.check("the time index advances and wraps at midnight", S.eq(v[5], j))
    for k, d in enumerate(LOADS + GENS):
        agree(S, "demands and available powers follow the documented profile", d, v[k], j)


def after(S, t):
    return S.ite(t <= 94, t + 1, 0)


def one(S):
    env = S.mod(EASY).ANM6Easy()
    t = S.int("t", 0, 95)
    s = vector(S, "s", 17, -1000, 1000) + [t * 1.0]
    variables(S, env.next_vars(S.np.array(s)), after(S, t))


def limits(S):
    env = S.mod(EASY).ANM6Easy()
    t = S.int("t", 0, 95)
    v = env.next_vars(S.np.array([0.0] * 17 + [t * 1.0]))
    row = {r[0]: r for r in rows(S).devices}
    j = after(S, t)
    for k, d in enumerate(LOADS + GENS):
        kn = [("F30", S.And(near(S, v[k], typo(S, d, j)), S.Or(S.And(j >= 45, j <= 51), S.And(j >= 65, j <= 71))))] if d == 2 else []
        S.check("the profile respects the limits of the devices", S.And(S.le(row[d][5], v[k]), S.le(v[k], row[d][4])), known=kn)


def steps(S, n):
    env = S.mod(EASY).ANM6Easy()
    sim = Standin(S, env, rows(S), keys=("dev_p",))
    env.reset(seed=5)
    t = sim.inits[-1][-1]
    row = {r[0]: r for r in rows(S).devices}
    for k in range(n):
        S.check("the time index of the state is the one of the profile", S.eq(env.state[-1], t))
        env.step(S.np.zeros(6))
        t = after(S, t)
        pl, pp = sim.calls[-1][:2]
        S.check("demands are given for the three loads", sorted(pl) == sorted(LOADS))
        S.check("available powers are given for the two generators", sorted(pp) == sorted(GENS))
        for d in LOADS:
            agree(S, "each load gets the demand of its profile", d, pl[d], t)
        for d in GENS:
            agree(S, "each generator gets the available power of its profile", d, pp[d], t)
    S.check("the time index of the state is the one of the profile", S.eq(env.state[-1], t))


case("any state")(one)
case("device limits")(limits)
case("two steps")(lambda S: steps(S, 2))
case("eight steps", tier="thorough", time=300)(lambda S: steps(S, 8))
