"""C38 MPC forecasts match what the environment will produce."""
from .mpc import *
from .C35 import Q, tapped, lossless_storage

CASES, case = registry()
BOUNDS = "perfect forecasts: ANM6Easy, every time of the day, horizons of 1, 2, 5 steps and of just under, exactly and over one, two and three days, against as many steps of the random process of the environment; constant forecasts: any loads and available powers in networks of 2 and 3 buses (unordered identifiers, no loads, no generators), horizons of 1, 2 and 7 steps, twice with one agent"
STUBS = "none for the forecasts (the agents are asked for them directly)"
OUTSIDE = "environments other than ANM6Easy with perfect forecasts; rounding"


def table(S, x, rows, n):
    """The entries of a forecast, row by row."""
    out = [[x[i, k] for k in range(n)] for i in range(rows)]
    S.check("a row for each device and a column for each step", tuple(x.shape) == (rows, n))
    return out


def perfect(S, horizons, twice=False, times=None):
    env = S.mod(EASY).ANM6Easy()
    n = S.choice("horizon", horizons)
    ag = S.mod(PERFECT).MPCAgentPerfect(env.simulator, env.action_space, 0.99, planning_steps=n)
    for k in range(2 if twice else 1):
        t = S.int("time%d" % k, 0, 95) if times is None else S.choice("time%d" % k, times)
        state = S.np.array([S.real("state%d_%d" % (k, i), -100, 100) for i in range(state_size(rows(S), 0))] + [t])
        env.state = state
        loads, pots = ag.forecast(env)
        S.check("the forecast does not change the state", S.eq(env.state[-1], t))
        loads, pots = table(S, loads, 3, n), table(S, pots, 2, n)
        s, same_loads, same_pots = state, [], []
        for j in range(n):
            v = list(env.next_vars(s))
            same_loads += [S.eq(loads[i][j], v[i] / 100) for i in range(3)]
            same_pots += [S.eq(pots[i][j], v[3 + i] / 100) for i in range(2)]
            s = S.np.array([0.0] * (len(list(state)) - 1) + [v[5]])
        S.check("loads are those of the following steps", S.And(*same_loads))
        S.check("available powers are those of the following steps", S.And(*same_pots))


def rows(S):
    from . import easy
    return easy.rows(S)


def constant(S, mk, n):
    cs = mk()
    env = Env(S, cs)
    ag = S.mod(CONST).MPCAgentConstant(env.simulator, env.action_space, 0.99, planning_steps=n)
    for k in range(2):
        powers = {i: S.real("p%d_%d" % (k, i), -500, 500) for i in of(cs, "dev")}
        pots = {i: S.real("pot%d_%d" % (k, i), 0, 500) for i in of(cs, "gen")}
        env.put(contents(S, cs, "ab"[k]), powers, pots)
        lf, gf = ag.forecast(env)
        for x, kind, want in ((lf, "load", powers), (gf, "gen", pots)):
            who = of(cs, kind)
            S.check("a row for each device and a column for each step", len(who) == 0 or tuple(x.shape) == (len(who), n))
            for r, i in enumerate(who):
                for j in range(n):
                    S.check("the current values are repeated", S.eq(x[r, j], want[i]))


case("perfect, next step", max_paths=500, **Q)(lambda S: perfect(S, [1]))
case("perfect, four steps", max_paths=500, **Q)(lambda S: perfect(S, [4], times=list(range(96))))
case("perfect, about a day", max_paths=500, **Q)(lambda S: perfect(S, [95, 96, 97], times=[0, 1, 47, 94, 95]))
case("perfect, two decisions", max_paths=500, **Q)(lambda S: perfect(S, [2], True, times=[0, 31, 93, 94, 95]))
case("perfect, short horizons", max_paths=500, tier="thorough", **dict(Q, time=400))(lambda S: perfect(S, [2, 5]))
case("perfect, a day", max_paths=500, tier="thorough", **dict(Q, time=400))(lambda S: perfect(S, [94, 95, 96, 97], times=list(range(96))))
case("perfect, days", max_paths=600, tier="thorough", **dict(Q, time=600))(lambda S: perfect(S, [191, 192, 193, 288, 289], times=list(range(96))))
for name, mk in (("gapped", gapped), ("loads", only_loads), ("storage", only_storage), ("generators", only_gens), ("tapped", tapped)):
    for n in (1, 2, 7):
        case("constant, %s, %d steps" % (name, n), **Q)(lambda S, mk=mk, n=n: constant(S, mk, n))
