"""C18 Energy loss equals line losses, curtailment and storage charging."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses (radial, meshed, transformer with phase shift, slack in any position, several devices per bus and on the slack bus); bus voltages arbitrary within angles of 3 rad and magnitudes of 3 p.u. that the code accepts as a solution; injections in [-50, 50] MW; time step 0.05, 0.25, 1 or 24 h (its symbolic influence is decided by C17); states of charge anywhere in the limits; also the transition after an earlier arbitrary one, beside simulators of another network with the same identifiers"
STUBS = "the sparse linear solver is replaced by an arbitrary vector; cosine and sine of symbolic angles are any point of the unit circle; the convex solver returns any feasible point"
OUTSIDE = "rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80)


def judge(S, cs, dt=0.25, before=False):
    sim = ready(S, cs, before, dt=dt)
    S.linear([lambda n: iterate(S, n)])
    state, reward, e_loss, penalty, ok = transition(S, sim, cs)
    if not bool(ok):
        S.stop()
    v = volts(S, sim)
    finite = S.And(*[S.isfinite(x.real) & S.isfinite(x.imag) for x in v.values()])
    if not S.implied(finite):
        S.stop()
    rest = 0.0
    for br in cs.branches:
        y, sh, t = pi(S, br)
        d = v[br[0]] / t - v[br[1]]         # voltage across the series impedance
        rest = rest + y.real * (d.real * d.real + d.imag * d.imag)
    for d in cs.devices:
        if d[2] == 2:
            rest = rest + (state["gen_p_max"]["pu"][d[0]] - state["dev_p"]["pu"][d[0]])
        if d[2] == 3:
            rest = rest - state["dev_p"]["pu"][d[0]]
    tol = 1.01e-5 * (len(cs.buses) - 1)
    S.check("energy loss is line losses plus curtailment plus energy put into storage", S.And(S.le(e_loss - rest * dt, tol * dt, 1e-7), S.ge(e_loss - rest * dt, -tol * dt, 1e-7)))


case("two buses", **Q)(lambda S: judge(S, two(), S.choice("dt", [0.05, 0.25, 1, 24])))
case("transformer, slack not first", **Q)(lambda S: judge(S, tx()))
case("mesh", **Q)(lambda S: judge(S, mesh()))
case("every device type", **Q)(lambda S: judge(S, mixed()))
case("two buses, second transition", **Q)(lambda S: judge(S, two(), before=True))
case("small, second transition", **Q)(lambda S: judge(S, small(), before=True))
