"""C21 Advertised bounds contain every reachable value."""
import math
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with symbolic device limits in [-100, 100] MW (several devices per bus, devices on the slack bus), base power 40 and 100 MVA; any requested set-points, loads and available powers in [-200, 200] MW; any state of charge within limits; bus voltages arbitrary within angles of 3 rad and magnitudes of 3 p.u."
STUBS = "the sparse linear solver is replaced by an arbitrary vector; the convex solver returns any feasible point; the angle of a complex number is any number in [-pi, pi] with the right cosine and sine"
OUTSIDE = "undefined (NaN) voltages; rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80)


def inside(S, name, x, bd, known=()):
    S.check(name, S.And(S.ge(x, bd[0], 1e-6), S.le(x, bd[1], 1e-6)), known=[(f, c) for f, c in known])


def judge(S, cs, flat=False):
    sim = ready(S, cs)
    space = sim.get_state_space()
    S.linear([] if flat else [lambda n: iterate(S, n)])
    state, _, _, _, ok = transition(S, sim, cs, lim=200)
    v = volts(S, sim)
    finite = S.And(*[S.isfinite(x.real) & S.isfinite(x.imag) for x in v.values()])
    if not S.implied(finite):
        S.stop()
    for key in sorted(state):
        for unit in sorted(state[key]):
            for i in state[key][unit]:
                S.check("every state variable has advertised bounds", i in space[key] and unit in space[key][i])
                inside(S, "%s lies within the advertised bounds" % key, state[key][unit][i], space[key][i][unit])


def finite_slack(S):
    """The slack device supplies whatever leaves its bus."""
    cs = Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1, 0.03, 0.05, 0.02)], [net.slack(0, 0, 20, -20, 20, -20), net.load(1, 1, 0.2, 0, -50)], 100)
    sim = sim_of(S, cs)
    space = sim.get_state_space()
    S.linear([lambda n: iterate(S, n)])
    state, _, _, _, ok = transition(S, sim, cs)
    if bool(ok):
        leave = injected(S, cs, volts(S, sim))[0]
        for key in ("dev_p", "dev_q", "bus_p", "bus_q"):
            x, bd = state[key]["pu"][0], space[key][0]["pu"]
            # known: the limits of the slack device are not enforced, it balances the network
            S.check("injections at the slack bus lie within the advertised bounds", S.And(S.ge(x, bd[0], 1e-6), S.le(x, bd[1], 1e-6)), known=[("F27", S.eq(x, leave.real if key[-1] == "p" else leave.imag, 1e-6))])


def open_slack(cs):
    for d in cs.devices:
        if d[2] == 0:
            d[4:8] = [N] * 4
    return cs


def after_reset(S, cs):
    sim = sim_of(S, cs)
    space = sim.get_state_space()
    nd = len(cs.devices)
    order = sorted(d[0] for d in cs.devices)
    row = {d[0]: d for d in cs.devices}
    init = [S.real("P%d" % i, -200, 200) for i in order] + [S.real("Q%d" % i, -200, 200) for i in order]
    init += [S.real("soc%d" % i, -50, 300) for i in order if row[i][2] == 3] + [S.real("max%d" % i, -200, 200) for i in order if row[i][2] in (1, 2)]
    S.linear([])
    sim.reset(S.np.array(init))
    for key in ("dev_p", "dev_q", "des_soc", "gen_p_max"):
        for unit in sorted(sim.state[key]):
            for i in sim.state[key][unit]:
                if row[i][2] != 0:
                    inside(S, "after a reset, %s lies within the advertised bounds" % key, sim.state[key][unit][i], space[key][i][unit])


def limits(S, cs):
    for d in cs.devices:
        n = "%d" % d[0]
        if d[2] == -1:
            d[3] = S.real("qp" + n, -2, 2)
            d[5] = S.real("pmin" + n, -100, 0)
            d[4] = S.real("pmax" + n, -100, 0)
            S.assume(S.le(d[5], d[4]))
        elif d[2] in (1, 2, 3):
            d[4], d[5] = S.real("pmax" + n, 1, 100), S.real("pmin" + n, 0, 1) if d[2] != 3 else S.real("pmin" + n, -100, -1)
            d[6], d[7] = S.real("qmax" + n, 1, 100), S.real("qmin" + n, -100, -1)
            if d[2] == 3:
                d[12], d[13] = S.real("smax" + n, 2, 100), S.real("smin" + n, 0, 1)
    return cs


def loads(base=40):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1, 0.03, 0.05, 0.02)],
                [net.slack(0, 0, N, N, N, N), net.load(1, 1, 0.2), net.load(5, 1, 0.4), net.load(3, 0, 0.1)], base)


def machines(base=40):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1, 0.03, 0.05, 0.02)],
                [net.slack(0, 0, N, N, N, N), net.gen(1, 1, 2), net.storage(2, 1), net.gen(4, 0, 1)], base)


case("loads", **Q)(lambda S: judge(S, limits(S, loads()), True))
case("generators and storage", **Q)(lambda S: judge(S, limits(S, machines()), True))
case("transformer, slack not first", **Q)(lambda S: judge(S, open_slack(tx())))
case("every device type", **Q)(lambda S: judge(S, open_slack(mixed())))
case("slack with limits", **Q)(finite_slack)
case("reset", **Q)(lambda S: after_reset(S, mixed(40)))
