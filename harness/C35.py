"""C35 MPC plans satisfy the network and device constraints."""
from .mpc import *

CASES, case = registry()
BOUNDS = "networks of 2 to 4 buses and up to 8 devices (unordered identifiers, taps, phase shift, no storage, no generators, no loads, unlimited devices), horizons of 1 and 2 stages (3 in the thorough tier), all forecasts, states of charge within limits and plans; the second decision of an agent as well as the first; also beside an agent of another network with the same identifiers"
STUBS = "the convex solver answers any plan that satisfies the constraints it is given (not only optimal ones)"
OUTSIDE = "the accuracy of the convex solver; whether a plan exists"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80)


def prepare(S, cs, N, aux, second):
    env = Env(S, cs)
    sol = Solver(S, env, N, aux)
    if second:
        sol.calls = -1
        loads, pots, arrays = series(S, cs, N, "a")
        socs = contents(S, cs, "a")
    box = {}
    ag = agent(S, env, N, lambda: box["now"], beside=second)
    if second:
        env.put(socs)
        box["now"] = arrays
        sol.aux = "free"
        ag.act(env)
        sol.aux = aux
    loads, pots, arrays = series(S, cs, N)
    socs = contents(S, cs)
    env.put(socs)
    box["now"] = arrays
    ag.act(env)
    doc, exact = documented(S, cs, sol.P, sol.T, loads, pots, socs)
    return sol, doc, exact


def sound(S, mk, N, second=False):
    cs = mk()
    sol, doc, exact = prepare(S, cs, N, "free", second)
    S.check("the limits given to the solver are finite", sol.finite())
    S.assume(sol.holds())
    lossy = any(d[2] == 3 and d[14] not in (None, 1) for d in cs.devices)
    for n, c in doc.items():
        S.check(n, c, known=[("F31", lossy)] if n == "the planned charging of later stages fits" else [])


def complete(S, mk, N, second=False):
    cs = mk()
    sol, doc, exact = prepare(S, cs, N, "split", second)
    S.assume(S.And(exact, *doc.values()))
    ways = []
    for first in ("charging", "discharging"):
        if sol.place(first):
            ways.append(sol.holds())
    if not ways:
        raise NotImplementedError("variables of the plan not recognised")
    S.check("every plan within the limits is allowed", S.Or(*ways))


def unlimited(base=100):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1, rate=None)], [net.slack(0, 0), net.load(1, 1), [2, 1, 1, None, None, 0, None, None] + [None] * 7,
                [3, 1, 3, None, None, None, None, None, None, None, None, None, 50, 0, 0.9]], base)


def lossless_storage(base=100):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1)], [net.slack(0, 0), net.storage(1, 1, eff=1, smax=20, smin=5), net.load(2, 1), net.storage(3, 0, eff=1)], base)


def tapped(base=50):
    return Case([net.bus(3), net.bus(1, True), net.bus(2)], [net.branch(1, 2, 0.01, 0.1, 0.02, 20, 0.95, 30), net.branch(3, 2, 0.02, 0.1, 0.1, 30, 1.1), net.branch(1, 3, 0.01, 0.05, 0.0, 30)],
                [net.slack(5, 1), net.load(1, 2), net.gen(2, 3, 2, 30, 5, 30, -30, 20, 10, -10), net.load(3, 3), net.storage(4, 2, 50, -45, 50, -50, 30, -25, 20, -20)], base)


ALL = dict(gapped=gapped, loads=only_loads, storage=only_storage, generators=only_gens, unlimited=unlimited, lossless_storage=lossless_storage, tapped=tapped)
for n, mk in ALL.items():
    for N in (1, 2, 3):
        t = "quick" if N < 3 else "thorough"
        case("%s, %d stages, plans within limits" % (n, N), tier=t, **Q)(lambda S, mk=mk, N=N: sound(S, mk, N))
        case("%s, %d stages, all plans" % (n, N), tier=t, **Q)(lambda S, mk=mk, N=N: complete(S, mk, N))
for n in ("gapped", "tapped"):
    case("%s, second decision, plans within limits" % n, **Q)(lambda S, mk=ALL[n]: sound(S, mk, 1, True))
    case("%s, second decision, all plans" % n, **Q)(lambda S, mk=ALL[n]: complete(S, mk, 1, True))
