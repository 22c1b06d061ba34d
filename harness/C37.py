"""C37 MPC actions apply the first planned stage in the action space."""
from .mpc import *
from .C35 import ALL, Q

CASES, case = registry()
BOUNDS = "networks of 2 to 4 buses and up to 8 devices (unordered identifiers, no storage, no generators, no loads), base powers from 1 to 1000 MVA, horizons of 1 and 2 stages, any answer of the convex solver, any bounds of the action space (also infinite) and the bounds the environment advertises; two decisions of one agent; also beside an agent of another network with the same identifiers"
STUBS = "the convex solver answers anything, satisfying its constraints or not"
OUTSIDE = "the accuracy of the convex solver; infeasible problems"


def body(S, mk, N, bounds, base=None):
    cs = mk(base) if base else mk()
    env = Env(S, cs)
    gens, des = of(cs, "gen"), of(cs, "des")
    n = 2 * len(gens + des)
    if bounds == "any":
        low = [S.real("low%d" % i, -2000, 2000) for i in range(n)]
        high = [l + S.real("width%d" % i, 0, 2000) for i, l in enumerate(low)]
    elif bounds == "infinite":
        low, high = [-math.inf] * n, [math.inf] * n
    else:
        p, q, dp, dq = env.simulator.get_action_space()
        low = [d[i][0] for d, k in ((p, gens), (q, gens), (dp, des), (dq, des)) for i in k]
        high = [d[i][1] for d, k in ((p, gens), (q, gens), (dp, des), (dq, des)) for i in k]
    env.action_space = Limits(S.np.array(low), S.np.array(high))
    sol = Solver(S, env, N)
    box = {}
    ag = agent(S, env, N, lambda: box["now"], beside=bounds == "any")
    for k in range(2):
        loads, pots, box["now"] = series(S, cs, N, "ab"[k])
        env.put(contents(S, cs, "ab"[k]))
        a = list(ag.act(env))
        want = [sol.P[0][i] * cs.base for i in gens] + [0.0] * len(gens) + [sol.P[0][i] * cs.base for i in des] + [0.0] * len(des)
        S.check("one entry for each set-point", len(a) == n)
        for i in range(n):
            S.check("the first stage in MW, clipped" if i in range(len(gens)) or i in range(2 * len(gens), 2 * len(gens) + len(des)) else "no reactive power, clipped",
                    S.eq(a[i], S.max(low[i], S.min(want[i], high[i]))))


for n, mk in ALL.items():
    for N in (1, 2):
        case("%s, %d stages" % (n, N), **Q)(lambda S, mk=mk, N=N: body(S, mk, N, "any"))
for n in ("gapped", "generators", "tapped"):
    case("%s, infinite bounds" % n, **Q)(lambda S, mk=ALL[n]: body(S, mk, 1, "infinite"))
    case("%s, advertised bounds" % n, **Q)(lambda S, mk=ALL[n]: body(S, mk, 1, "own"))
    for base in (1, 33, 1000):
        case("%s, base power %d" % (n, base), **Q)(lambda S, mk=ALL[n], base=base: body(S, mk, 1, "any", base))
