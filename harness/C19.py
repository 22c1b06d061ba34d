"""C19 Resetting the simulator reproduces the requested initial state."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with every type of device, several of each type, interleaved and unordered identifiers, base power 40 and 100 MVA; time step 1/4 and 1 h; every initial state vector whose injections are feasible (loads within limits at constant Q/P, generators and storage within their operating limits and the available power); states of charge in [-50, 300] MWh"
STUBS = "the convex solver returns a feasible point that is at least as close to the request as the request itself is; the sparse linear solver returns zeros (the reported devices other than the slack do not depend on it)"
OUTSIDE = "devices with slanted limits P+/P- (their projection is C01/C02); rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80, cp_infeasible=False)


def reset(S, cs, dt=0.25, dirty=False, any_soc=True):
    sim = sim_of(S, cs, dt=dt)
    order = sorted(d[0] for d in cs.devices)
    row = {d[0]: d for d in cs.devices}
    p, q, soc, pmax = {}, {}, {}, {}
    for i in order:
        d = row[i]
        p[i], q[i] = S.real("P%d" % i, -200, 200, np_=True), S.real("Q%d" % i, -200, 200, np_=True)
        if d[2] == -1:
            S.assume(S.And(S.le(d[5], p[i]), S.le(p[i], d[4]), S.eq(q[i], d[3] * p[i])))
        if d[2] in (1, 2, 3):
            S.assume(S.And(S.le(d[5], p[i]), S.le(p[i], d[4]), S.le(d[7], q[i]), S.le(q[i], d[6])))
        if d[2] in (1, 2):
            pmax[i] = S.real("max%d" % i, -200, 200, np_=True)
            S.assume(S.And(S.le(p[i], pmax[i]), S.le(pmax[i], d[4]), S.le(d[5], pmax[i])))
        if d[2] == 3:
            soc[i] = S.real("soc%d" % i, -50, 300, np_=True)
            # the injection can be sustained over one step from an empty or a full unit
            S.assume(S.And(S.le(-p[i] * dt * d[14], d[12] - d[13]), S.le(p[i] * dt, (d[12] - d[13]) * d[14])))
    if dirty:
        for i in order:
            if row[i][2] == 3:
                x = S.real("old%d" % i, 0, 1000)
                S.assume(S.And(S.le(row[i][13] / cs.base, x), S.le(x, row[i][12] / cs.base)))
                sim.devices[i].soc = x
    vec = [p[i] for i in order] + [q[i] for i in order] + [soc[i] for i in sorted(soc)] + [pmax[i] for i in sorted(pmax)] + [S.real("aux", 0, 10, np_=True)]
    # the point requested of each device, in the order of the devices
    pts = [(p[i] / cs.base, q[i] / cs.base) for i in order if row[i][2] in (1, 2, 3)]
    S.options(cp="contract", cp_points=pts, cp_own=True)
    S.linear([])
    r = S.call(sim.reset, S.np.array(vec))
    S.check("a reset to a feasible state does not fail", r.ok)
    if not r.ok:
        S.stop()
    S.check("the reset reports whether the load flow converged", S.Iff(r.value == True, sim.pfe_converged == True))
    st = sim.state
    t = None if S.symbolic else 1e-3
    for i in order:
        if row[i][2] == 0:
            continue
        S.check("the active injection is the requested one", S.And(S.eq(st["dev_p"]["MW"][i], p[i], t), S.eq(st["dev_p"]["pu"][i], p[i] / cs.base, t)))
        S.check("the reactive injection is the requested one", S.And(S.eq(st["dev_q"]["MVAr"][i], q[i], t), S.eq(st["dev_q"]["pu"][i], q[i] / cs.base, t)))
        if i in pmax:
            S.check("the available power is the requested one", S.And(S.eq(st["gen_p_max"]["MW"][i], pmax[i]), S.eq(st["gen_p_max"]["pu"][i], pmax[i] / cs.base)))
        if i in soc:
            lo, hi = row[i][13], row[i][12]
            want = S.min(S.max(soc[i], lo), hi)
            S.check("the state of charge is the requested one, within its limits", S.And(S.eq(st["des_soc"]["MWh"][i], want), S.eq(st["des_soc"]["pu"][i], want / cs.base), S.eq(sim.devices[i].soc, want / cs.base)))
    S.check("available powers are reported for the non-slack generators only", sorted(st["gen_p_max"]["MW"]) == sorted(pmax))
    S.check("charges are reported for the storage units only", sorted(st["des_soc"]["MWh"]) == sorted(soc))


def lined(devs, base):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1, 0.03, 0.05, 0.02)], devs, base)


def several(base=40):
    return lined([net.gen(9, 1, 2, 25, 0, 20, -20), net.load(5, 1, 0.3, 0, -40), net.storage(4, 1, 30, -30, 20, -20, smax=80, smin=10, eff=0.8), net.slack(3, 0),
                  net.load(8, 0, -0.2, 0, -60), net.gen(1, 0, 1, 35, 5, 15, -25), net.storage(7, 0, 20, -10, 10, -10, smax=60, smin=5, eff=0.9)], base)


case("every device type", **Q)(lambda S: reset(S, mixed()))
case("several of each type, unordered", **Q)(lambda S: reset(S, several()))
case("several of each type, one hour", **Q)(lambda S: reset(S, several(100), dt=1))
case("after other states", **Q)(lambda S: reset(S, several(), dirty=True))
case("no storage", **Q)(lambda S: reset(S, lined([net.slack(0, 0), net.gen(3, 1, 1), net.load(2, 1), net.gen(1, 1, 2)], 40)))
case("no generator", **Q)(lambda S: reset(S, lined([net.load(0, 1, 0.1), net.storage(3, 0), net.storage(2, 1, 30, -30), net.slack(5, 0)], 100)))
