"""C20 Transitions depend on nothing but state of charge and inputs."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with every type of device; one arbitrary earlier transition (any inputs, any load-flow iterate; also one with the same inputs) against a fresh simulator with the same states of charge; then one transition with any common inputs and any common load-flow iterate; resets to any common initial state before and after an arbitrary transition"
STUBS = "the convex solver is a function of its problem (equal problems, equal answers, any feasible point); the sparse linear solver returns a common arbitrary vector in the compared transitions"
OUTSIDE = "longer histories (every transition overwrites the same variables); warm starts of the external solvers"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80, functional=True, cp_infeasible=False, lim=100)


def common(S, cs, sim, lim=100):
    loads = {d[0]: S.once("load%d" % d[0], -lim, lim) for d in cs.devices if d[2] == -1}
    pot = {d[0]: S.once("pot%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2)}
    ps = {d[0]: S.once("setp%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2, 3)}
    qs = {d[0]: S.once("setq%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2, 3)}
    return sim.transition(loads, pot, ps, qs)


def earlier(S, cs, sim, it=True, lim=100):
    loads = {d[0]: S.once("load_%d" % d[0], -lim, lim) for d in cs.devices if d[2] == -1}
    pot = {d[0]: S.once("pot_%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2)}
    ps = {d[0]: S.once("setp_%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2, 3)}
    qs = {d[0]: S.once("setq_%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2, 3)}
    S.linear([lambda n: vec(S, n, "e")] if it else [])
    sim.transition(loads, pot, ps, qs)


def vec(S, n, tag):
    return [S.once("%s_%d" % (tag, i), -3 if i < n // 2 else -2, 3 if i < n // 2 else 2) for i in range(n)]


def same(S, a, b):
    t = None if S.symbolic else 1e-3
    (s1, r1, e1, p1, c1), (s2, r2, e2, p2, c2) = a, b
    S.check("the same convergence", S.Iff(c1 == True, c2 == True))
    S.check("the same quantities are reported", sorted(s1) == sorted(s2))
    for k in sorted(s1):
        for u in sorted(s1[k]):
            for i in s1[k][u]:
                x, y = s1[k][u][i], s2[k][u][i]
                if undef(S, x) and undef(S, y):
                    continue
                S.check("%s is the same" % k, S.eq(x, y, t))
    for n, x, y in (("reward", r1, r2), ("energy loss", e1, e2), ("penalty", p1, p2)):
        if not (undef(S, x) and undef(S, y)):
            S.check("the same %s" % n, S.eq(x, y, t))


def undef(S, x):
    return S.isfinite(x) is False or (S.concrete and not S.isfinite(x))


def history(S, cs, it=True, near=False, lim=100):
    if near:
        # answers no farther from the request than the request itself (where it is feasible)
        S.options(cp="contract", cp_points=[(S.once("setp%s%d" % (w, d[0]), -lim, lim) / cs.base, S.once("setq%s%d" % (w, d[0]), -lim, lim) / cs.base) for d in cs.devices if d[2] in (1, 2, 3) for w in ("", "_")], cp_own=True)
    old, new = ready(S, cs), sim_of(S, cs)
    earlier(S, cs, old, it)
    out = []
    for sim in (old, new):
        for d in cs.devices:
            if d[2] == 3:
                sim.devices[d[0]].soc = S.once("content%d" % d[0], d[13] / cs.base, d[12] / cs.base)
        S.linear([lambda n: vec(S, n, "x")] if it else [])
        out.append(common(S, cs, sim))
    same(S, out[0], out[1])
    for d in cs.devices:
        if d[2] == 3:
            S.check("the same charge afterwards", S.eq(old.devices[d[0]].soc, new.devices[d[0]].soc, None if S.symbolic else 1e-3))


def resets(S, cs, it=True):
    sim = sim_of(S, cs)
    n = 2 * len(cs.devices) + len([d for d in cs.devices if d[2] in (1, 2, 3)])
    s0 = [S.real("s%d" % i, -100, 100, np_=True) for i in range(n)]
    out = []
    for k in range(2):
        S.linear([lambda n: vec(S, n, "x")] if it else [])
        ok = sim.reset(S.np.array(s0))
        out.append((sim.state, 0.0, 0.0, 0.0, ok))
        if k == 0:
            earlier(S, cs, sim, it)
    same(S, out[0], out[1])


T = dict(Q, time=700)
case("history, two buses", **Q)(lambda S: history(S, two()))
case("history, small", **Q)(lambda S: history(S, small(), it=False))
case("history, small, feasible requests", **Q)(lambda S: history(S, small(), it=False, near=True))
case("resets, small", **Q)(lambda S: resets(S, small(), it=False))
case("history, transformer", tier="thorough", **T)(lambda S: history(S, tx()))
case("history, every device type", tier="thorough", **T)(lambda S: history(S, mixed()))
case("history, flat load flow", tier="thorough", **T)(lambda S: history(S, mixed(40), it=False))
case("resets, every device type", tier="thorough", **T)(lambda S: resets(S, mixed()))
case("resets, transformer", tier="thorough", **T)(lambda S: resets(S, tx()))
