"""C39 Behaviour is a function of the seeded generator only."""
from .easy import *

CASES, case = registry()
BOUNDS = "two environments with the same seed, 0 included (ANM6Easy, 6-bus base class, base class whose random processes use the generator of the environment), the same actions (any) and the same results of the simulator (any); a reset, two steps, a reset and a step, one after the other or interleaved in six orders; also one environment reset twice with the same seed; two simulators with the same inputs and the same arbitrary results of the solvers (a reset; a transition from the same states of charge)"
STUBS = "draws of the k-th number of generators with the same seed are equal and arbitrary; draws of any other generator, and anything read from the clock, are arbitrary and different; in the environment cases, the transition of the simulator is a stand-in with the same signature which reports the same arbitrary results to both"
OUTSIDE = "random processes of the user that do not use the generator of the environment; the order of Python sets; rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80, cp_infeasible=False)


class Same(Standin):
    """The second stand-in repeats the results of the first."""
    store = None

    def fresh(self):
        S, k, st = self.S, len(self.states), {}
        for key, units in QUANTITIES.items():
            st[key] = {u: {i: S.once("s%d_%s_%s_%d" % (k, key, u, n), -500, 500) if key in self.keys else 0.125 * n for n, i in enumerate(ids(self.cs, key))} for u in units}
        self.states.append(st)
        self.env.simulator.state = {a: {b: dict(c) for b, c in d.items()} for a, d in st.items()}
        return self.env.simulator.state


ORDERS = ["ababababab", "baabbaabba", "aabbaabbab", "bbaaabaabb", "aaaabbbbab", "abbbaaaabb"]


def kinds(S, which):
    if which == "easy":
        return S.mod(EASY).ANM6Easy(), rows(S)
    if which == "six":
        d = {"init_state": lambda self: S.np.array([self.np_random.uniform(-5.0, 5.0)] * 17), "next_vars": lambda self, s: S.np.array([self.np_random.uniform(0.0, 4.0 + k) for k in range(5)])}
        return type("Six", (S.mod(ANM6).ANM6,), d)("state", 0, 0.5, 0.9, 100), rows(S)
    cs = only_gens()
    init = lambda e: S.np.array([e.np_random.uniform(-3.0, 5.0) for k in range(state_size(cs, 2))])
    nxt = lambda e, s: S.np.array([e.np_random.uniform(0.0, 9.0) for k in range(next_size(cs, 2) - 1)] + [e.np_random.integers(0, 96)])
    return build(S, cs, 2, init=init, nxt=nxt), cs


def runs(S, which, mode):
    flags, draws = {}, {}
    conv = lambda k: flags.setdefault(k, bool(S.bool("converges%d" % k)))
    ok = lambda k: k != 1
    res = lambda k: (0.0, S.once("eloss%d" % k, -500, 500), S.once("penalty%d" % k, 0, 5000))
    plan = "rssrs"
    seed = S.choice("seed", [11, 0]) if mode == "one after the other" else 11

    def start():
        env, cs = kinds(S, which)
        return env, Same(S, env, cs, resets=ok, converges=conv, keys=("dev_p", "gen_p_max"), results=res)

    def move(env, sim, log, k):
        w = plan[k]
        if w == "r":
            obs = env.reset(**(dict(seed=seed) if k == 0 else {}))[0]
            log.append(("reset", list(obs), None, None))
        else:
            lo, hi = list(env.action_space.low), list(env.action_space.high)
            a = [S.once("a%d_%d" % (k, i), 0, 1) * (h - l) + l for i, (l, h) in enumerate(zip(lo, hi))]
            o, r, t = env.step(S.np.array(a))[:3]
            log.append(("step", list(o), r, bool(t)))
        log[-1] += (list(env.state), getattr(env, "date", None), getattr(env, "year_count", None), env.timestep)

    A, B = [], []
    ea, sa = start()
    if mode == "one after the other":
        for k in range(len(plan)):
            move(ea, sa, A, k)
        eb, sb = start()
        for k in range(len(plan)):
            move(eb, sb, B, k)
    elif mode == "interleaved":
        eb, sb = start()
        i = j = 0
        for who in S.choice("order", ORDERS):
            if who == "a":
                move(ea, sa, A, i)
                i += 1
            else:
                move(eb, sb, B, j)
                j += 1
    else:
        for k in range(len(plan)):
            move(ea, sa, A, k)
        na = len(sa.inits)
        sb = Same(S, ea, sa.cs, resets=ok, converges=conv, keys=sa.keys, results=res)
        for k in range(len(plan)):
            move(ea, sb, B, k)
    S.check("the same initial states are drawn", len(sa.inits) == len(sb.inits) and S.And(*[same(S, x, y) for x, y in zip(sa.inits, sb.inits)]))
    S.check("the simulator is given the same", len(sa.calls) == len(sb.calls) and S.And(*[S.And(*[S.And(*([S.eq(p[i], q[i]) for i in p] or [True])) for p, q in zip(x, y)]) for x, y in zip(sa.calls, sb.calls)]))
    for x, y in zip(A, B):
        S.check("observations are the same", same(S, x[1], y[1]))
        S.check("states are the same", same(S, x[4], y[4]))
        if x[0] == "step":
            S.check("rewards are the same", S.eq(x[2], y[2]))
            S.check("flags are the same", x[3] == y[3])
        if x[5] is not None:
            S.check("dates are the same", S.eq((x[5] - y[5]).total_seconds(), 0))
            S.check("year counts are the same", S.eq(x[6], y[6]))
        S.check("counters are the same", x[7] == y[7])


def undef(S, x):
    return S.isfinite(x) is False or (S.concrete and not S.isfinite(x))


def simulators(S, cs, start):
    """Two simulators with the same inputs and the same results of the solvers."""
    sims = [sim_of(S, cs), sim_of(S, cs)]
    out = []
    t = None if S.symbolic else 1e-3
    for sim in sims:
        S.linear([lambda n: [S.once("it_%d" % i, -3 if i < n // 2 else -2, 3 if i < n // 2 else 2) for i in range(n)]])
        if start:
            n = len(cs.devices)
            sos = [d for d in cs.devices if d[2] == 3]
            gens = [d for d in cs.devices if d[2] in (1, 2)]
            ok = sim.reset(S.np.array([S.once("init%d" % i, -50, 50) for i in range(2 * n)] + [S.once("soc%d" % d[0], d[13], d[12]) for d in sos] + [S.once("pot%d" % d[0], -50, 50) for d in gens]))
            out.append((sim.state, 0, 0, 0, bool(ok)))
            continue
        for d in cs.devices:
            if d[2] == 3:
                sim.devices[d[0]].soc = S.once("soc%d" % d[0], d[13] / cs.base, d[12] / cs.base)
        v = [{d[0]: S.once("%s%d" % (w, d[0]), -50, 50) for d in cs.devices if d[2] in k} for w, k in (("load", (-1,)), ("pot", (1, 2)), ("setp", (1, 2, 3)), ("setq", (1, 2, 3)))]
        out.append(sim.transition(*v))
    (s1, r1, e1, p1, c1), (s2, r2, e2, p2, c2) = out
    S.check("the simulators agree on convergence", S.Iff(c1 == True, c2 == True))
    for x, y in ((r1, r2), (e1, e2), (p1, p2)):
        if not (undef(S, x) and undef(S, y)):
            S.check("the simulators give the same rewards", S.eq(x, y, t))
    S.check("the same quantities are reported", sorted(s1) == sorted(s2))
    for k in sorted(s1):
        for u in sorted(s1[k]):
            for i in s1[k][u]:
                x, y = s1[k][u][i], s2[k][u][i]
                if not (undef(S, x) and undef(S, y)):
                    S.check("the simulators report the same state", S.eq(x, y, t))


for which in ("easy", "six", "base"):
    for mode in ("one after the other", "one environment"):
        case("%s, %s" % (which, mode))(lambda S, which=which, mode=mode: runs(S, which, mode))
    case("%s, interleaved" % which, max_paths=2000, time=200, tier="quick" if which == "six" else "thorough")(lambda S, which=which: runs(S, which, "interleaved"))
for start in (False, True):
    w = ", reset" if start else ""
    case("simulators%s" % w, functional=True, **Q)(lambda S, start=start: simulators(S, two(), start))
    case("simulators, transformer%s" % w, tier="thorough", functional=True, **Q)(lambda S, start=start: simulators(S, tx(), start))
