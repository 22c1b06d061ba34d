"""C25 Rewards are clipped as documented."""
from .envs import *
from .C23 import midpoint

CASES, case = registry()
BOUNDS = "any energy loss in [-500, 500] and penalty in [0, 5000] (finite or infinite) of two consecutive steps; any clipping limits in [0, 1000], each given or not; base environment and ANM6Easy; at any time step of an episode and beside an environment of another network with the same identifiers"
STUBS = "the transition of the simulator is a stand-in with the same signature which reports arbitrary losses and penalties"
OUTSIDE = "undefined (NaN) losses; rounding"


def judge(S, env, sim, c, step, n):
    for k in range(n):
        late(S, env)
        r = S.call(step)
        S.check("a step succeeds", r.ok)
        if not r.ok:
            S.stop()
        e, p = sim.results[-1]
        we = e if c[0] is None else S.ite(S.ge(e, 0), S.min(e, c[0]), S.max(e, -c[0]))
        wp = p if c[1] is None else S.min(p, c[1])
        obs, reward, term = r.value[:3]
        S.check("the step is not terminal", not term)
        S.check("the reward is minus the sum of the clipped costs", S.eq(reward, -(we + wp)))
        S.check("the stored energy loss is the clipped one", S.eq(env.e_loss, we))
        S.check("the stored penalty is the clipped one", S.eq(env.penalty, wp))


def base(S, other=False):
    cs = only_loads()
    w = S.choice("limits", ["none", "no loss limit", "no penalty limit", "both", "neither"])
    c = [S.real("c0", 0, 1000) if w in ("no penalty limit", "both") else None, S.real("c1", 0, 1000) if w in ("no loss limit", "both") else None]
    env = build(S, cs, 1, init=lambda e: S.np.array(vector(S, "i", state_size(cs, 1))), nxt=lambda e, s: S.np.array(vector(S, "v", next_size(cs, 1))), costs=None if w == "none" else tuple(c))
    sim = Standin(S, env, cs, keys=())
    env.reset()
    if other:
        beside(S)
    judge(S, env, sim, c, lambda: env.step(S.np.zeros(0)), 2)


def easy(S):
    env = S.mod(EASY).ANM6Easy()
    net6 = S.mod("gym_anm.envs.anm6_env.network").network
    cs = Case([list(r) for r in net6["bus"]], [list(r) for r in net6["branch"]], [list(r) for r in net6["device"]], net6["baseMVA"])
    sim = Standin(S, env, cs, keys=())
    env.reset(seed=1)
    judge(S, env, sim, [1, 100], lambda: env.step(S.np.zeros(6)), 1)


case("clipping")(base)
case("clipping, beside another environment")(lambda S: base(S, True))
case("ANM6Easy")(easy)
