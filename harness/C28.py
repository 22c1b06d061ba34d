"""C28 Reset retries until it finds a solvable initial state."""
from .envs import *
from .C23 import midpoint, clip

CASES, case = registry()
BOUNDS = "0, 1, 2, 98, 99, 100 or more unsolvable initial states before the first solvable one; any initial states; resets at the start and after steps with or without a collapse; initial states of any wrong size; K of 0 to 2; base environment and the 100 draws of ANM6Easy; after any number of steps and beside an environment of another network"
STUBS = "the reset and the transitions of the simulator are stand-ins with the same signature which report arbitrary results and convergence (in the last case the load flow is the real one and the linear solver fails)"
OUTSIDE = "rounding"
MAX = 100


def retry(S, mk, K, before="", other=False):
    cs = mk()
    n = {"i": [], "v": 0, "fail": 0}

    def init(e):
        # a few unknowns per state tell the states apart
        v = vector(S, "i%d" % len(n["i"]), 2) + [1.0 * len(n["i"])] * (state_size(cs, K) - 4) + vector(S, "j%d" % len(n["i"]), 2)
        n["i"].append(v)
        return S.np.array(v)

    def nxt(e, s):
        n["v"] += 1
        return S.np.array(vector(S, "v%d" % n["v"], next_size(cs, K)))

    env = build(S, cs, K, init=init, nxt=nxt)
    sim = Standin(S, env, cs, keys=("dev_p", "gen_p_max"), resets=lambda k: k >= n["fail"], converges=lambda k: n["conv"])
    for w in before:
        if w == "r":
            env.reset()
        else:
            n["conv"] = w == "s"
            late(S, env)
            env.step(midpoint(S, env))
    fails = S.choice("unsolvable", [0, 1, 2, MAX - 2, MAX - 1, MAX, MAX + 1, MAX + 50] if not before else [0, 1, MAX])
    if other:
        beside(S, fails=60)
    n0, before_calls = len(n["i"]), len(sim.calls)
    n["fail"] = n0 + fails
    r = S.call(env.reset)
    if fails >= MAX:
        S.check("a reset without a solvable state raises the initialisation error", r.isa("EnvInitializationError"))
        S.check("at most the documented number of initial states is drawn", len(n["i"]) - n0 == MAX and len(sim.inits) - n0 == MAX)
        return
    S.check("a reset with a solvable state succeeds", r.ok)
    if not r.ok:
        S.stop()
    obs = r.value[0]
    S.check("initial states are drawn until one is solvable", len(n["i"]) - n0 == fails + 1 and len(sim.inits) - n0 == fails + 1)
    S.check("every drawn state is tried", S.And(*[same(S, a, b) for a, b in zip(n["i"][n0:], sim.inits[n0:])]))
    want = standard(S, cs, K, sim.states[-1], n["i"][-1][state_size(cs, K) - K:] if K else [])
    S.check("the reset returns the solvable state", S.And(same(S, env.state, want), same(S, obs, clip(S, env, want))))
    S.check("a reset never returns a collapsed state", env.terminated == False)
    S.check("the counters are cleared", S.And(env.timestep == 0, S.eq(env.e_loss, 0), S.eq(env.penalty, 0)))
    S.check("a reset makes no transition of its own", len(sim.calls) == before_calls)


def size(S, mk):
    cs, K = mk(), S.choice("K", [0, 2])
    right = state_size(cs, K)
    n = S.choice("size", sorted({0, 1, right - K, right - 1, right + 1, right + 2} - {right}))
    at = S.choice("draw", [0, 2])
    seen = []

    def init(e):
        seen.append(1)
        return S.np.array(vector(S, "i%d" % len(seen), n if len(seen) > at else right)) if n or len(seen) <= at else S.np.zeros(0)

    env = build(S, cs, K, init=init, nxt=lambda e, s: None)
    sim = Standin(S, env, cs, keys=(), resets=lambda k: False)
    r = S.call(env.reset)
    S.check("an initial state of the wrong size raises the initialisation error", r.isa("EnvInitializationError"))
    S.check("an initial state of the wrong size is not applied", len(sim.inits) == at)


def solver(S):
    """The real load flow: the linear solver gives undefined results for the first states."""
    cs = only_loads()
    fails = S.choice("unsolvable", [0, 1, 3])
    seen = []

    def init(e):
        seen.append(1)
        # a collapse in concrete runs: a demand the line cannot carry
        big = len(seen) <= fails
        return S.np.array([-3000.0 if big else 0.0, 0.0, -3000.0 if big else 0.0] + [0.0, 0.0, 0.0])

    cs.devices[0][5] = cs.devices[2][5] = -3000
    cs.branches[0][3] = 0.2
    env = build(S, cs, 0, init=init, nxt=lambda e, s: None)
    if S.symbolic:
        S.linear(["nan"] * fails)
    r = S.call(env.reset)
    S.check("a reset with a solvable state succeeds", r.ok)
    if r.ok:
        S.check("the solvable state is the one in use", S.And(len(seen) == fails + 1, S.eq(env.state[2], 0), env.simulator.pfe_converged == True))


for mk in (gapped, only_loads, only_gens):
    case("retries, " + mk.__name__)(lambda S, mk=mk: retry(S, mk, 1))
for b in ("rs", "rc", "rssc", "rcr", "rcs"):
    case("retries after " + b)(lambda S, b=b: retry(S, only_gens, 2, b))
case("retries beside another environment")(lambda S: retry(S, only_gens, 2, "r", True))
for mk in NETS:
    case("wrong size, " + mk.__name__)(lambda S, mk=mk: size(S, mk))
case("real load flow")(solver)
