"""C22 Environment steps route every number to its device."""
from .envs import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with up to 8 devices (several of each type, unordered and gapped identifiers; only loads; only storage units; only generators), K of 0 to 2, symbolic limits of generators and storage units in [-100, 100]; any next-variables in [-500, 500], any action of the action space; two consecutive steps; next-variables and actions of any size from 0 to two more than expected; at any time step of an episode and beside an environment of another network with the same identifiers"
STUBS = "the transition of the simulator is a stand-in with the same signature which records its arguments and reports arbitrary results (in the end-to-end cases it is the real one, the sparse solver returning zeros)"
OUTSIDE = "actions and next-variables that are not vectors; rounding"


def limits(S, cs):
    for d in cs.devices:
        n = "%d" % d[0]
        if d[2] in (1, 2, 3):
            d[4], d[5] = S.real("pmax" + n, 2, 100), S.real("pmin" + n, 0, 1) if d[2] != 3 else S.real("pmin" + n, -100, -1)
            d[6], d[7] = S.real("qmax" + n, 1, 100), S.real("qmin" + n, -100, -1)
    return cs


def env_of(S, cs, K, **k):
    nv = {"n": 0, "got": [], "vars": []}

    def nxt(env, s_t):
        nv["got"].append(list(s_t))
        v = vector(S, "v%d" % nv["n"], next_size(cs, K))
        nv["n"] += 1
        nv["vars"].append(v)
        return S.np.array(v)

    env = build(S, cs, K, init=lambda e: S.np.array(vector(S, "i", state_size(cs, K))), nxt=nxt, **k)
    return env, nv


def entries(cs):
    """Documented layout of the action vector."""
    g, s = ids(cs, "gen_p_max"), ids(cs, "des_soc")
    return [("p", i) for i in g] + [("q", i) for i in g] + [("p", i) for i in s] + [("q", i) for i in s]


def routing(S, mk, K, sym=True, other=False):
    cs = limits(S, mk()) if sym else mk()
    if other:
        beside(S)
    env, nv = env_of(S, cs, K)
    if other:
        beside(S)
    sim = Standin(S, env, cs, keys=("dev_p", "des_soc"))
    lay, row = entries(cs), {d[0]: d for d in cs.devices}
    S.check("the action space has one entry per set-point", env.action_space.shape == (len(lay),))
    lo, hi = list(env.action_space.low), list(env.action_space.high)
    for k, (w, i) in enumerate(lay):
        d = row[i]
        S.check("each entry of the action space has the limits of its device", S.And(S.eq(lo[k], d[5 if w == "p" else 7]), S.eq(hi[k], d[4 if w == "p" else 6])))
    env.reset()
    loads = sorted(d[0] for d in cs.devices if d[2] == -1)
    gens = ids(cs, "gen_p_max")
    for t in range(2):
        before = [x for x in env.state]
        late(S, env)
        a = act(S, env, "a%d" % t)
        r = S.call(env.step, S.np.array(a))
        S.check("a step with an action of the action space succeeds", r.ok)
        if not r.ok:
            S.stop()
        S.check("each step makes one transition", len(sim.calls) == t + 1 and nv["n"] == t + 1)
        S.check("the next variables are drawn from the current state", same(S, nv["got"][t], before))
        v = nv["vars"][t]
        pl, pp, ps, qs = sim.calls[t]
        S.check("demands are given for the loads", sorted(pl) == loads)
        S.check("available powers are given for the non-slack generators", sorted(pp) == gens)
        S.check("active set-points are given for the controllable devices", sorted(ps) == sorted(i for w, i in lay if w == "p"))
        S.check("reactive set-points are given for the controllable devices", sorted(qs) == sorted(i for w, i in lay if w == "q"))
        if loads:
            S.check("each demand goes to its load", S.And(*[S.eq(pl[i], v[k]) for k, i in enumerate(loads)]))
        if gens:
            S.check("each available power goes to its generator", S.And(*[S.eq(pp[i], v[len(loads) + k]) for k, i in enumerate(gens)]))
        for k, (w, i) in enumerate(lay):
            S.check("each set-point goes to its device", S.eq((ps if w == "p" else qs)[i], a[k]))


def sizes(S, mk):
    K = S.choice("K", [0, 2])
    cs = mk()
    right = next_size(cs, K)
    n = S.choice("size", [k for k in sorted({0, 1, right - 2, right - 1, right + 1, right + 2}) if k >= 0 and k != right])
    env = build(S, cs, K, init=lambda e: S.np.array(vector(S, "i", state_size(cs, K))), nxt=lambda e, s: S.np.array(vector(S, "v", n)))
    sim = Standin(S, env, cs, keys=())
    env.reset()
    r = S.call(env.step, S.np.array(act(S, env)))
    S.check("next variables of the wrong size are rejected", r.isa("EnvNextVarsError"))
    S.check("nothing is applied after a rejection", not sim.calls)


def asizes(S, mk):
    cs = mk()
    env, nv = env_of(S, cs, 1)
    sim = Standin(S, env, cs, keys=())
    env.reset()
    right = len(entries(cs))
    n = S.choice("size", [k for k in (0, 1, right - 1, right + 1, right + 2) if k >= 0 and k != right])
    r = S.call(env.step, S.np.array([S.real("a%d" % i, 0, 1, np_=True) for i in range(n)]) if n else S.np.zeros(0))
    S.check("actions of the wrong size are rejected", not r.ok)
    S.check("nothing is applied after a rejection", not sim.calls and nv["n"] == 0)


def outside(S, mk):
    cs = mk()
    env, nv = env_of(S, cs, 1)
    sim = Standin(S, env, cs, keys=())
    env.reset()
    lo, hi = list(env.action_space.low), list(env.action_space.high)
    a = vector(S, "a", len(lo), -200, 200)
    S.assume(S.Or(*[S.Or(S.lt(x, l, 0), S.gt(x, h, 0)) for x, l, h in zip(a, lo, hi)]))
    r = S.call(env.step, S.np.array(a))
    S.check("actions outside of the action space are rejected", not r.ok)
    S.check("nothing is applied after a rejection", not sim.calls)


def whole(S, mk, K):
    """The real simulator: what the step applies is what the state reports."""
    cs = mk()
    env, nv = env_of(S, cs, K)
    real = env.simulator.transition
    Standin(S, env, cs, keys=())
    env.reset()
    S.patch_obj(env.simulator, "transition", real)
    row = {d[0]: d for d in cs.devices}
    lay = entries(cs)
    late(S, env)
    a = act(S, env)
    req = {}
    for x, (w, i) in zip(a, lay):
        req[w, i] = x
    S.options(cp="contract", cp_points=[(req["p", i] / cs.base, req["q", i] / cs.base) for i in sorted(row) if row[i][2] in (1, 2, 3)], cp_own=True)
    S.linear([])
    r = S.call(env.step, S.np.array(a))
    S.check("a step with an action of the action space succeeds", r.ok)
    if not r.ok:
        S.stop()
    v = nv["vars"][0]
    st = env.simulator.state
    loads, gens = sorted(i for i in row if row[i][2] == -1), ids(cs, "gen_p_max")
    t = None if S.symbolic else 1e-3
    for k, i in enumerate(loads):
        p = S.min(S.max(v[k], row[i][5]), row[i][4])
        S.check("each load consumes its demand", S.And(S.eq(st["dev_p"]["MW"][i], p, t), S.eq(st["dev_q"]["MVAr"][i], row[i][3] * p, t)))
    for k, i in enumerate(gens):
        m = S.min(S.max(v[len(loads) + k], row[i][5]), row[i][4])
        S.check("each generator has its available power", S.eq(st["gen_p_max"]["MW"][i], m, t))
        S.check("each generator follows its set-point up to the available power", S.Implies(S.le(req["p", i], m), S.And(S.eq(st["dev_p"]["MW"][i], req["p", i], t), S.eq(st["dev_q"]["MVAr"][i], req["q", i], t))))


def one_gen():
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1)], [net.slack(5, 0), net.gen(1, 1, 2, 30, 2, 12, -13), net.load(3, 0, 0.2, 0, -20)], 40)


for mk in NETS:
    for K in (0, 1, 2):
        case("routing, %s, K=%d" % (mk.__name__, K), tier="quick" if K < 2 else "thorough")(lambda S, mk=mk, K=K: routing(S, mk, K))
    case("next variables of the wrong size, " + mk.__name__)(lambda S, mk=mk: sizes(S, mk))
    case("actions of the wrong size, " + mk.__name__)(lambda S, mk=mk: asizes(S, mk))
for mk in (gapped, only_storage, only_gens):
    case("actions outside of the action space, " + mk.__name__)(lambda S, mk=mk: outside(S, mk))
case("real simulator, loads", time=100)(lambda S: whole(S, only_loads, 1))
case("real simulator, generator", time=60, branch_ms=150, branch_nl_ms=150, implied_ms=80, cp_infeasible=False)(lambda S: whole(S, one_gen, 0))
case("real simulator, generators", time=60, branch_ms=150, branch_nl_ms=150, implied_ms=80, cp_infeasible=False)(lambda S: whole(S, only_gens, 0))
case("routing, beside another environment")(lambda S: routing(S, gapped, 1, other=True))
