"""C24 Observations always lie in the declared observation space."""
from .envs import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with up to 8 devices, symbolic device limits in [-100, 100], K of 0 to 3 with any auxiliary bounds or none; every quantity, unit (or none) and elements; observations as state, list, function, and overridden bounds; the results of a reset and of two transitions arbitrary in [-5000, 5000], with or without convergence; at any time step of an episode and beside an environment of another network with the same identifiers"
STUBS = "the transition of the simulator is a stand-in with the same signature which reports an arbitrary state for every quantity and unit"
OUTSIDE = "undefined (NaN) quantities; observation functions whose values do not fit the bounds the user gives for them; rounding"
from .C22 import limits
from .C23 import entry, midpoint

BIG = 5000


def env_of(S, cs, K, **k):
    n = {"i": 0, "v": 0}

    def init(e):
        n["i"] += 1
        return S.np.array(vector(S, "i%d" % n["i"], state_size(cs, K), -BIG, BIG))

    def nxt(e, s):
        n["v"] += 1
        v = vector(S, "v%d" % n["v"], next_size(cs, K), -BIG, BIG)
        n["vars"] = v
        return S.np.array(v)

    return build(S, cs, K, init=init, nxt=nxt, **k), n


def member(S, env, obs, terminated):
    sp = env.observation_space
    S.check("observations have the shape of the observation space", obs.shape == sp.shape and env.observation_N == obs.shape[0])
    for x, l, h in zip(obs, sp.low, sp.high):
        S.check("observations lie within the bounds of the observation space", S.And(S.le(l, x), S.le(x, h)), known=[("F28", S.And(terminated, S.eq(x, 0)))])
    if not terminated:
        S.check("observations are members of the observation space", sp.contains(obs))


def go(S, env, cs, want=None, aux=None):
    """want: (quantity, unit, element) per entry."""
    conv = lambda k: bool(S.bool("converges%d" % k)) if k else True
    sim = Standin(S, env, cs, converges=conv, keys={w[0] for w in want} if want else None)
    space = env.simulator.get_state_space()

    def bounds():
        if want is None:
            return
        low, high = list(env.observation_space.low), list(env.observation_space.high)
        S.check("the observation space has one entry per requested element", len(low) == len(want))
        for (key, u, i), l, h in zip(want, low, high):
            if key == "aux":
                b = aux[i] if aux is not None else (-math.inf, math.inf)
            else:
                b = space[key][i][u]
            S.check("the bounds of the observation space are the advertised ones", S.And(S.eq(l, b[0]), S.eq(h, b[1])))

    obs, _ = env.reset()
    bounds()
    member(S, env, obs, False)
    for t in range(2):
        late(S, env)
        r = S.call(env.step, midpoint(S, env))
        S.check("a step returns an observation", r.ok)
        if not r.ok:
            S.stop()
        member(S, env, r.value[0], bool(r.value[2]))
    bounds()


def aux_bounds(S, K):
    out = []
    for k in range(K):
        a, b = S.real("auxlo%d" % k, -100, 100), S.real("auxhi%d" % k, -100, 100)
        S.assume(S.le(a, b))
        out.append([a, b])
    return out


def state(S, mk, K, bounded, other=False):
    cs = limits(S, mk())
    if other:
        beside(S, K=K)
    ab = aux_bounds(S, K) if bounded else None
    env, n = env_of(S, cs, K, aux_bounds=S.np.array(ab) if bounded else None)
    want = [(k, u, i) for k, u in (("dev_p", "MW"), ("dev_q", "MVAr"), ("des_soc", "MWh"), ("gen_p_max", "MW")) for i in ids(cs, k)] + [("aux", None, i) for i in range(K)]
    if other:
        beside(S, K=K)
    go(S, env, cs, want, ab)


def listed(S, key):
    cs, K = gapped(), 2
    for d in cs.devices:
        if d[2] == 0:
            d[4:8] = S.choice("slack", [[N] * 4, [20, -20, 30, -30]])
    spec, want = entry(S, cs, K, key, "")
    ab = aux_bounds(S, K) if key == "aux" and S.bool("bounded") else None
    env, n = env_of(S, cs, K, observation=[spec], aux_bounds=S.np.array(ab) if ab else None)
    go(S, env, cs, want, ab)


def function(S, how):
    cs, K = gapped(), 1
    f = lambda s: S.np.array([s[0], s[3] * 2, s[-1]])
    box = lambda a, b: S.mod("gymnasium").spaces.Box(low=S.np.array(a), high=S.np.array(b), dtype=S.np.float64)
    lo, hi = [-BIG, -2 * BIG, -BIG], [BIG, 2 * BIG, BIG]
    if how == "callable":
        env, n = env_of(S, cs, K, observation=f)
    elif how == "callable with bounds":
        env, n = env_of(S, cs, K, observation=f, methods={"observation_bounds": lambda self: box([1.0 * x for x in lo], [1.0 * x for x in hi])})
    else:
        env, n = env_of(S, cs, K, methods={"observation_bounds": lambda self: box([1.0 * x for x in lo], [1.0 * x for x in hi]), "observation": lambda self, s: f(s)})
    go(S, env, cs)
    low, high = list(env.observation_space.low), list(env.observation_space.high)
    for i in range(3):
        S.check("the observation space of a function is unbounded unless bounds are given", S.And(S.eq(low[i], -math.inf), S.eq(high[i], math.inf)) if how == "callable" else S.And(S.eq(low[i], lo[i]), S.eq(high[i], hi[i])))


def narrow(S):
    """Bounds given by the user for a list of quantities."""
    cs, K = only_gens(), 1
    a, b, c, d = [S.real(x, -100, 100) for x in "abcd"]
    S.assume(S.And(S.le(a, b), S.le(c, d)))
    box = lambda self: S.mod("gymnasium").spaces.Box(low=S.np.array([a, c]), high=S.np.array([b, d]), dtype=S.np.float64)
    env, n = env_of(S, cs, K, observation=[("gen_p_max", [3], "MW"), ("aux", [0])], methods={"observation_bounds": box})
    sim = Standin(S, env, cs, keys=("gen_p_max",))
    obs, _ = env.reset()
    member(S, env, obs, False)
    obs = env.step(midpoint(S, env))[0]
    member(S, env, obs, False)
    S.check("values are only changed by clipping to the bounds", S.And(S.eq(obs[0], S.min(S.max(sim.states[-1]["gen_p_max"]["MW"][3], a), b)), S.eq(obs[1], S.min(S.max(n["vars"][-1], c), d))))


for mk in NETS:
    for K, b in ((0, False), (1, False), (3, True)):
        case("state, %s, K=%d%s" % (mk.__name__, K, " bounded" if b else ""), tier="quick" if mk is only_gens or b else "thorough")(lambda S, mk=mk, K=K, b=b: state(S, mk, K, b))
for key in list(QUANTITIES) + ["aux"]:
    case("observed " + key, max_paths=120, time=90)(lambda S, key=key: listed(S, key))
for how in ("callable", "callable with bounds", "overridden"):
    case("observation function, " + how)(lambda S, how=how: function(S, how))
case("list with bounds of the user")(narrow)
case("state, beside another environment")(lambda S: state(S, only_storage, 2, False, True))
