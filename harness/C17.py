"""C17 The reward is minus energy loss minus weighted constraint violations."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with symbolic voltage limits in [0, 2] p.u. (also a slack bus without VMIN), symbolic branch rates in [0, 200] MVA (also unlimited), time step in [0.01, 24] h and penalty factor in [0, 10000]; bus voltages arbitrary within angles of 3 rad and magnitudes of 3 p.u.; injections in [-50, 50] MW; also the transition after an earlier arbitrary one, beside simulators of another network with the same identifiers"
STUBS = "the sparse linear solver is replaced by an arbitrary vector; the convex solver returns any feasible point"
OUTSIDE = "undefined (NaN) voltages; rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80)
T = 1e-6


def judge(S, cs, dt=None, lamb=None, before=False):
    dt = S.real("dt", 0.01, 24) if dt is None else dt
    lamb = S.real("lamb", 0, 10000) if lamb is None else lamb
    sim = ready(S, cs, before, dt=dt, lamb=lamb)
    S.linear([lambda n: iterate(S, n)])
    state, reward, e_loss, penalty, ok = transition(S, sim, cs)
    v = volts(S, sim)
    finite = S.And(*[S.isfinite(x.real) & S.isfinite(x.imag) for x in v.values()])
    if not S.implied(finite):
        S.stop()
    loss = 0.0
    for d in cs.devices:
        if d[2] != 3:
            loss = loss + state["dev_p"]["pu"][d[0]]
        if d[2] == 2:
            loss = loss + S.max(0.0, state["gen_p_max"]["pu"][d[0]] - state["dev_p"]["pu"][d[0]])
    S.check("energy loss: time step times injections of generators and loads plus curtailment", S.eq(e_loss, loss * dt, T))
    viol, fine = 0.0, []
    for b in cs.buses:
        m = state["bus_v_magn"]["pu"][b[0]]
        vmax, vmin = b[3], b[4] if b[4] is not None else 0.0
        viol = viol + S.max(0.0, m - vmax) + S.max(0.0, vmin - m)
        fine += [S.le(m, vmax), S.ge(m, vmin)]
    for br in cs.branches:
        if br[5] is None:
            continue
        s = S.abs(state["branch_s"]["pu"][(br[0], br[1])])
        rate = br[5] / cs.base
        viol = viol + S.max(0.0, s - rate)
        fine.append(S.le(s, rate))
    S.check("penalty: time step times factor times voltage and rate violations", S.eq(penalty, viol * dt * lamb, T))
    S.check("the penalty is never negative", S.ge(penalty, 0.0))
    S.check("no penalty while all limits hold", S.Implies(S.And(*fine), S.eq(penalty, 0.0, T)))
    S.check("the reward is minus energy loss minus penalty", S.eq(reward, -(e_loss + penalty), T))


def limits(S, cs, slackmin=True):
    for b in cs.buses:
        b[3] = S.real("vmax%d" % b[0], 0.5, 2)
        b[4] = S.real("vmin%d" % b[0], 0, 2)
        if b[1] == 0 and not slackmin:
            b[4] = None
        else:
            S.assume(S.le(b[4], b[3]))
    for n, br in enumerate(cs.branches):
        br[5] = S.real("rate%d" % n, 0, 200)
    return cs


def unlimited(S):
    cs = limits(S, mesh(), False)
    cs.branches[1][5] = None
    judge(S, cs, dt=0.25, lamb=100)


case("two buses", **Q)(lambda S: judge(S, limits(S, two())))
case("mesh", **Q)(lambda S: judge(S, limits(S, mesh()), dt=0.25, lamb=100))
case("mesh without some limits", **Q)(unlimited)
case("every device type", **Q)(lambda S: judge(S, mixed()))
case("two buses, second transition", **Q)(lambda S: judge(S, limits(S, two()), before=True))
case("small, second transition", **Q)(lambda S: judge(S, small(), before=True))
