"""C29 Returned observations are never modified afterwards."""
from .envs import *
from .C23 import midpoint

CASES, case = registry()
BOUNDS = "a reset, four steps with the network collapsing at any of them, another reset and a step; every returned observation and the state vectors kept by the caller, which either keeps them or overwrites them; state, list, function (returning its argument, a view of it, or the same array every time it is asked) observations and overridden ones; K of 0 to 2; arbitrary results of transitions"
STUBS = "the transition of the simulator is a stand-in with the same signature which reports arbitrary results"
OUTSIDE = "longer histories; callbacks that keep references to their own results"


def history(S, K, observation, overwrite, methods=None):
    cs = only_gens()
    n = {"v": 0, "i": 0}
    given = []

    def init(e):
        n["i"] += 1
        return S.np.array(vector(S, "i%d" % n["i"], state_size(cs, K)))

    def nxt(e, s):
        n["v"] += 1
        given.append((s, [x for x in s]))
        return S.np.array(vector(S, "v%d" % n["v"], next_size(cs, K)))

    env = build(S, cs, K, init=init, nxt=nxt, observation=observation, methods=methods)
    sim = Standin(S, env, cs, keys=("dev_p", "gen_p_max"), converges=lambda k: bool(S.bool("converges%d" % k)))
    kept = []
    size = state_size(cs, K)
    for t, w in enumerate("rssssrs"):
        over = w == "s" and bool(env.terminated)
        obs = env.reset()[0] if w == "r" else env.step(midpoint(S, env))[0]
        # what the environment holds after the call
        state = list(env.state)
        if not env.terminated:
            src = ("i%d" % n["i"], size - K) if w == "r" else ("v%d" % n["v"], next_size(cs, K) - K)
            S.check("the state is the one of this step", same(S, state, standard(S, cs, K, sim.states[-1], [S.once("%s_%d" % (src[0], src[1] + k)) for k in range(K)])))
        else:
            S.check("the terminal state is zero", same(S, state, [0] * size))
        kept.append((obs, list(obs)))
        kept.append((env.state, state))
        if overwrite:
            for k in range(len(obs)):
                obs[k] = S.real("w%d_%d" % (t, k), -500, 500)
            kept[-2] = (obs, list(obs))
            S.check("overwriting an observation does not change the environment", same(S, env.state, state))
        for a, b in kept:
            S.check("observations and states given earlier are unchanged", same(S, a, b))


box = lambda S, n: S.mod("gymnasium").spaces.Box(low=-S.np.ones(n) * 1000, high=S.np.ones(n) * 1000, dtype=S.np.float64)
for ow in (False, True):
    o = ", overwritten" if ow else ""
    case("state" + o)(lambda S, ow=ow: history(S, S.choice("K", [0, 1, 2]), "state", ow))
    case("list" + o)(lambda S, ow=ow: history(S, 2, [("aux", "all"), ("gen_p_max", [3])], ow))
    case("function" + o)(lambda S, ow=ow: history(S, 1, S.choice("function", [lambda s: s, lambda s: s[1:], lambda s: s + 1]), ow))
    case("overridden" + o)(lambda S, ow=ow: history(S, 2, "state", ow, {"observation": lambda self, s: s, "observation_bounds": lambda self: box(S, state_size(only_gens(), 2))}))
