"""C26 A collapsed network ends the episode for good."""
from .envs import *
from .C23 import midpoint

CASES, case = registry()
BOUNDS = "histories of up to 6 steps and resets with the network collapsing at any of them (4 steps, a reset, 2 steps); discount in [0, 1], any clipping limits in [0, 1000], each given or not; base environment (state, list and function observations, K of 0 to 2) and ANM6Easy; at any time step of an episode and beside an environment of another network with the same identifiers"
STUBS = "the transition of the simulator is a stand-in with the same signature which reports arbitrary results"
OUTSIDE = "longer histories; rounding"


def terminal(S, env, r, g, c):
    if not r.ok:
        # known: gamma = 1 divides by zero
        S.check("the step that reaches a terminal state returns", False, known=[("F21", S.And(S.eq(g, 1), r.isa("ZeroDivisionError")))])
        S.stop()
    obs, reward, term = r.value[:3]
    S.check("a collapse is reported as terminated", bool(term) == True and bool(env.terminated) == True)
    S.check("a collapse gives the zero observation", len(obs) == env.observation_N and same(S, obs, [0] * len(obs)))
    if S.symbolic or g != 1:
        d = 1 - g
        rc = c[0] + c[1]
        # known: the documentation defines r_clip as the sum of both limits, only the second is used
        S.check("the terminal reward is the documented one", S.eq(reward, -rc / d), known=[("F16", S.eq(reward, -c[1] / d))])


def walk(S, env, sim, drawn, g, c, action, plan):
    step = 0
    for w in plan:
        if w == "r":
            obs, _ = env.reset()
            S.check("a reset starts a new episode", not env.terminated and env.timestep == 0)
            continue
        late(S, env)
        over = bool(env.terminated)
        n, d, t = len(sim.calls), drawn(), env.timestep
        r = S.call(env.step, action())
        step += 1
        if over:
            S.check("steps after a collapse return", r.ok)
            if not r.ok:
                S.stop()
            obs, reward, term = r.value[:3]
            S.check("steps after a collapse are terminated", bool(term) == True and bool(env.terminated) == True)
            S.check("steps after a collapse give the zero observation", len(obs) == env.observation_N and same(S, obs, [0] * len(obs)))
            S.check("steps after a collapse give no reward", S.eq(reward, 0))
            S.check("steps after a collapse do not touch the simulator", len(sim.calls) == n)
            S.check("steps after a collapse draw nothing", drawn() == d)
        elif sim.outcome.get(n, True):
            S.check("a step of a solvable network returns", r.ok)
            if not r.ok:
                S.stop()
            S.check("a step of a solvable network is not terminated", bool(r.value[2]) == False and bool(env.terminated) == False)
            S.check("each step counts", S.eq(env.timestep, t + 1))
        else:
            terminal(S, env, r, g, c)


def converging(S, outcome):
    def f(k):
        outcome[k] = bool(S.bool("converges%d" % k))
        return outcome[k]
    return f


def base(S, K, observation, plan, other=False):
    cs = only_gens()
    g = S.real("gamma", 0, 1)
    c = [S.real("c%d" % i, 0, 1000) for i in range(2)]
    n = {"v": 0, "i": 0}

    def init(e):
        n["i"] += 1
        return S.np.array(vector(S, "i%d" % n["i"], state_size(cs, K)))

    def nxt(e, s):
        n["v"] += 1
        return S.np.array(vector(S, "v%d" % n["v"], next_size(cs, K)))

    env = build(S, cs, K, init=init, nxt=nxt, gamma=g, costs=tuple(c), observation=observation)
    out = {}
    sim = Standin(S, env, cs, keys=("dev_p",), converges=converging(S, out))
    sim.outcome = out
    if other:
        env.reset()
        beside(S, converges=False)
        plan = plan[1:]
    walk(S, env, sim, lambda: n["v"], g, c, lambda: midpoint(S, env), plan)


def unclipped(S):
    cs = only_gens()
    w = S.choice("limits", [None, (None, 5.0), (5.0, None), (None, None)])
    g = S.real("gamma", 0, 0.99)
    env = build(S, cs, 0, init=lambda e: S.np.array(vector(S, "i", state_size(cs, 0))), nxt=lambda e, s: S.np.array(vector(S, "v", next_size(cs, 0))), gamma=g, costs=w)
    sim = Standin(S, env, cs, keys=(), converges=lambda k: False)
    env.reset()
    r = S.call(env.step, midpoint(S, env))
    terminal(S, env, r, g, [math.inf if w is None or x is None else x for x in (w or (None, None))])


def easy(S):
    env = S.mod(EASY).ANM6Easy()
    net6 = S.mod("gym_anm.envs.anm6_env.network").network
    cs = Case([list(r) for r in net6["bus"]], [list(r) for r in net6["branch"]], [list(r) for r in net6["device"]], net6["baseMVA"])
    out, n = {}, {"v": 0}
    real = env.next_vars

    def nxt(s):
        n["v"] += 1
        return real(s)

    S.patch_obj(env, "next_vars", nxt)
    sim = Standin(S, env, cs, keys=(), converges=converging(S, out))
    sim.outcome = out
    env.reset(seed=3)
    date = []
    walk(S, env, sim, lambda: n["v"], 0.995, [1, 100], lambda: S.np.zeros(6), "ss")
    before = (env.date, env.year_count) if env.terminated else None
    walk(S, env, sim, lambda: n["v"], 0.995, [1, 100], lambda: S.np.zeros(6), "s")


for K in (0, 2):
    case("state observation, K=%d" % K)(lambda S, K=K: base(S, K, "state", "rssssrss"))
case("list observation")(lambda S: base(S, 1, [("dev_p", "all"), ("aux", [0])], "rsssrs"))
case("function observation")(lambda S: base(S, 1, lambda s: s[:2], "rsssrs"))
case("limits not given")(unclipped)
case("ANM6Easy")(easy)
case("beside another environment")(lambda S: base(S, 1, "state", "rsss", True))
