"""C23 States and observations contain the requested quantities in order."""
from .envs import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with up to 8 devices (unordered and gapped identifiers), K of 0 to 3; every quantity, unit (or none), all elements or chosen ones in any order, several entries; the results of two transitions, the initial state and the next variables arbitrary in [-500, 500]; at any time step of an episode and beside an environment of another network with the same identifiers"
STUBS = "the transition of the simulator is a stand-in with the same signature which reports an arbitrary state for every quantity and unit"
OUTSIDE = "longer histories; rounding"


def env_of(S, cs, K, **k):
    log = {"init": [], "vars": []}

    def init(e):
        v = vector(S, "i%d" % len(log["init"]), state_size(cs, K))
        log["init"].append(v)
        return S.np.array(v)

    def nxt(e, s):
        v = vector(S, "v%d" % len(log["vars"]), next_size(cs, K))
        log["vars"].append(v)
        return S.np.array(v)

    return build(S, cs, K, init=init, nxt=nxt, **k), log


def midpoint(S, env):
    lo, hi = list(env.action_space.low), list(env.action_space.high)
    return S.np.array([(a + b) / 2 for a, b in zip(lo, hi)]) if lo else S.np.zeros(0)


def run(S, env, cs, K, log, judge, steps=2, other=None):
    sim = Standin(S, env, cs)
    obs, _ = env.reset()
    if other:
        beside(S, other)
    judge(obs, sim.states[-1], log["init"][-1][state_size(cs, K) - K:])
    for t in range(steps):
        late(S, env)
        obs = env.step(midpoint(S, env))[0]
        judge(obs, sim.states[-1], log["vars"][-1][next_size(cs, K) - K:])


def state(S, mk, K, other=None):
    cs = mk()
    if other:
        beside(S)
    env, log = env_of(S, cs, K)

    def judge(obs, st, aux):
        want = standard(S, cs, K, st, aux)
        S.check("the state vector has the documented size", env.state_N == len(want) and env.state.shape == (len(want),))
        S.check("the state vector lists the documented quantities in order", same(S, env.state, want))
        S.check("the observation is the state within the bounds of the observation space", same(S, obs, clip(S, env, want)))

    run(S, env, cs, K, log, judge, other=other)


def clip(S, env, want):
    return [S.min(S.max(x, l), h) for x, l, h in zip(want, env.observation_space.low, env.observation_space.high)]


def entry(S, cs, K, key, tag):
    """One observation entry and the elements and unit it stands for."""
    units = QUANTITIES[key] if key != "aux" else (None,)
    allid = ids(cs, key) if key != "aux" else list(range(K))
    u = S.choice("unit" + tag, ["omitted"] + list(units))
    w = S.choice("elements" + tag, ["all", "reversed", "last", "first twice"] if len(allid) else ["all"])
    el = {"all": allid, "reversed": allid[::-1], "last": allid[-1:], "first twice": [allid[0], allid[-1], allid[0]] if allid else []}[w]
    spec = (key, "all" if w == "all" else el) + (() if u == "omitted" else (u,))
    return spec, [(key, units[0] if u == "omitted" else u, i) for i in el]


def listed(S, mk, K, keys):
    cs = mk()
    spec, want = [], []
    for n, key in enumerate(keys):
        a, b = entry(S, cs, K, key, str(n)) if n == 0 else ((key, "all"), [(key, (QUANTITIES.get(key) or (None,))[0], i) for i in (ids(cs, key) if key != "aux" else range(K))])
        spec.append(a)
        want += b
    env, log = env_of(S, cs, K, observation=spec)

    def judge(obs, st, aux):
        vals = [aux[i] if key == "aux" else st[key][u][i] for key, u, i in want]
        S.check("the observation has one entry per requested element", obs.shape == (len(want),) and env.observation_N == len(want))
        S.check("the observation holds the requested quantities in order", same(S, obs, clip(S, env, vals)))
        S.check("the state vector lists the documented quantities in order", same(S, env.state, standard(S, cs, K, st, aux)))

    run(S, env, cs, K, log, judge, 1)


def custom(S, how):
    """The observation is computed from the state."""
    cs, K = gapped(), 2
    seen = []

    def f(s):
        seen.append(list(s))
        return S.np.array([s[0] + s[1], s[-1]])

    if how == "callable":
        env, log = env_of(S, cs, K, observation=f)
    else:
        env, log = env_of(S, cs, K, observation="state", methods={"observation": lambda self, s: f(s), "observation_bounds": lambda self: S.mod("gymnasium").spaces.Box(low=-S.np.ones(2) * 5000, high=S.np.ones(2) * 5000, dtype=S.np.float64)})

    def judge(obs, st, aux):
        want = standard(S, cs, K, st, aux)
        S.check("the observation function is given the state", len(seen) > 0 and same(S, seen[-1], want))
        S.check("the observation is what the function gives", same(S, obs, [want[0] + want[1], want[-1]]))

    run(S, env, cs, K, log, judge)


for mk in NETS:
    for K in (0, 1, 3):
        case("state vector, %s, K=%d" % (mk.__name__, K), tier="quick" if K < 2 or mk is gapped else "thorough")(lambda S, mk=mk, K=K: state(S, mk, K))
for key in list(QUANTITIES) + ["aux"]:
    case("observed " + key, max_paths=60)(lambda S, key=key: listed(S, gapped, 2, [key, "dev_p" if key != "dev_p" else "bus_q"]))
    case("observed %s after others" % key, max_paths=60, tier="thorough")(lambda S, key=key: listed(S, gapped, 3, [key, "aux", "branch_s", key, "gen_p_max"]))
def shared(S):
    """The list of observed quantities is used for several networks."""
    cs, K = gapped(), 2
    spec = [("dev_p", "all"), ("aux", "all"), ("bus_v_magn", "all", "kV"), ("branch_p", "all"), ("gen_p_max", "all", "pu"), ("des_soc", "all")]
    beside(S, spec)
    want = [(k, u, i) for k, u in (("dev_p", "MW"), ("aux", None), ("bus_v_magn", "kV"), ("branch_p", "MW"), ("gen_p_max", "pu"), ("des_soc", "MWh")) for i in (range(K) if k == "aux" else ids(cs, k))]
    env, log = env_of(S, cs, K, observation=spec)

    def judge(obs, st, aux):
        vals = [aux[i] if key == "aux" else st[key][u][i] for key, u, i in want]
        S.check("the observation has one entry per requested element", obs.shape == (len(want),) and env.observation_N == len(want))
        S.check("the observation holds the requested quantities in order", same(S, obs, clip(S, env, vals)))
        S.check("the state vector lists the documented quantities in order", same(S, env.state, standard(S, cs, K, st, aux)))

    run(S, env, cs, K, log, judge, 1, spec)


case("state vector, beside another environment")(lambda S: state(S, gapped, 1, "state"))
case("shared list, beside another environment")(shared)
case("mixed list")(lambda S: listed(S, gapped, 2, ["aux", "branch_p", "bus_v_magn", "des_soc", "gen_p_max", "aux"]))
case("observation function")(lambda S: custom(S, "callable"))
case("overridden observation")(lambda S: custom(S, "method"))
