"""C15 All reported network quantities are mutually consistent."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses (radial, meshed, transformer with phase shift, slack in any position, gaps in the numbering, several devices per bus and on the slack bus); for two buses also symbolic line parameters; bus voltages arbitrary within angles of 3 rad and magnitudes of 3 p.u. (the linear solver returns any such correction in its first call and none afterwards; thorough: in its first two); injections in [-50, 50] MW; also the transition after an earlier arbitrary one, beside simulators of another network with the same identifiers"
STUBS = "the sparse linear solver is replaced by an arbitrary vector; cosine and sine of symbolic angles are any point of the unit circle; the convex solver returns any feasible point"
OUTSIDE = "undefined (NaN) voltages; rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80)
T = 1e-7


def judge(S, cs, script=None, before=False):
    sim = ready(S, cs, before)
    S.linear(script or [lambda n: iterate(S, n)])
    state, _, _, _, ok = transition(S, sim, cs)
    v = volts(S, sim)
    finite = S.And(*[S.isfinite(x.real) & S.isfinite(x.imag) for x in v.values()])
    if not S.implied(finite):
        S.stop()
    leave = injected(S, cs, v)
    cur = {b[0]: S.cplx(0.0, 0.0) for b in cs.buses}
    for br in cs.branches:
        k = (br[0], br[1])
        b = sim.branches[k]
        i, j = currents(S, br, v[br[0]], v[br[1]])
        sf, stt = flows(S, br, v[br[0]], v[br[1]])
        S.check("branch currents follow from the reported voltages", S.And(S.eq(b.i_from, i, T), S.eq(b.i_to, j, T)))
        S.check("the reported branch flow is the flow at the sending end", S.And(S.eq(state["branch_p"]["pu"][k], sf.real, T), S.eq(state["branch_q"]["pu"][k], sf.imag, T)))
        S.check("both flows of a branch follow from the reported voltages", S.And(S.eq(b.p_from, sf.real, T), S.eq(b.q_from, sf.imag, T), S.eq(b.p_to, stt.real, T), S.eq(b.q_to, stt.imag, T)))
        cur[br[0]] = cur[br[0]] + b.i_from
        cur[br[1]] = cur[br[1]] + b.i_to
    for b in cs.buses:
        i = b[0]
        S.check("the current injected at a bus is the sum of its branch currents", S.eq(sim.buses[i].i, cur[i], T))
        devs = [d[0] for d in cs.devices if d[1] == i]
        for q, want in (("p", leave[i].real), ("q", leave[i].imag)):
            tot = 0.0
            for d in devs:
                tot = tot + state["dev_" + q]["pu"][d]
            S.check("each bus injection is the sum of its devices' injections", S.eq(state["bus_" + q]["pu"][i], tot, T))
            if b[1] == 0:
                S.check("the slack bus injects what leaves through its branches", S.eq(state["bus_" + q]["pu"][i], want, T))
    for d in cs.devices:
        S.check("device injections are those of the devices", S.And(S.eq(state["dev_p"]["pu"][d[0]], sim.devices[d[0]].p), S.eq(state["dev_q"]["pu"][d[0]], sim.devices[d[0]].q)))


case("two buses", **Q)(lambda S: judge(S, two()))
case("two buses, symbolic transformer", **Q)(lambda S: judge(S, two(r=S.real("r", 0, 1), x=S.real("x", 0.01, 1), b=S.real("b", 0, 1), tap=S.real("tap", 0.5, 2))))
case("transformer, slack not first", **Q)(lambda S: judge(S, tx()))
case("mesh", **Q)(lambda S: judge(S, mesh()))
case("every device type", **Q)(lambda S: judge(S, mixed()))
case("mesh, two iterates", tier="thorough", **dict(Q, time=600))(lambda S: judge(S, mesh(), [lambda n: iterate(S, n), lambda n: iterate(S, n, k=1)]))
case("two buses, second transition", **Q)(lambda S: judge(S, two(), before=True))
case("small, second transition", **Q)(lambda S: judge(S, small(), before=True))
