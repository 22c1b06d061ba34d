"""C36 MPC plans minimise the documented cost."""
from .mpc import *
from .C35 import ALL, Q

CASES, case = registry()
BOUNDS = "networks of 2 to 4 buses and up to 8 devices (unordered identifiers, taps, phase shift, unlimited branches, renewable and other generators), horizons of 1 and 2 stages (3 in the thorough tier), all forecasts, states of charge, plans, discount factors and safety margins in [0, 1] and penalty factors in [0, 10000]; the second decision of an agent as well as the first; also beside an agent of another network with the same identifiers"
STUBS = "the convex solver answers any plan that satisfies the constraints it is given"
OUTSIDE = "the accuracy of the convex solver; several optimal plans"


def body(S, mk, N, second=False, lamb=None):
    cs = mk()
    lamb = S.real("lamb", 0, 10000) if lamb is None else lamb
    gamma, margin = S.real("gamma", 0, 1), S.real("margin", 0, 1)
    env = Env(S, cs, lamb=lamb)
    sol = Solver(S, env, N)
    box = {}
    ag = agent(S, env, N, lambda: box["now"], gamma, margin, second)
    for k in range(2 if second else 1):
        loads, pots, box["now"] = series(S, cs, N, "ab"[k])
        env.put(contents(S, cs, "ab"[k]))
        ag.act(env)
    S.assume(sol.holds())
    S.check("the cost is the documented one", S.eq(sol.cost(), documented_cost(S, cs, sol.P, sol.T, gamma, margin, lamb)))


for n, mk in ALL.items():
    for N in (1, 2, 3):
        case("%s, %d stages" % (n, N), tier="quick" if N < 3 else "thorough", **Q)(lambda S, mk=mk, N=N: body(S, mk, N))
for n in ("gapped", "tapped"):
    case("%s, second decision" % n, **Q)(lambda S, mk=ALL[n]: body(S, mk, 1, True))
