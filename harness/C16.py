"""C16 Every quantity is reported consistently in all its units."""
import math
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses (radial, meshed, transformer with phase shift, several devices per bus) with symbolic base power in [1, 1000] MVA (two buses) and symbolic base voltages in [0.1, 500] kV; bus voltages arbitrary within angles of 3 rad and magnitudes of 3 p.u.; injections in [-50, 50] MW; states of charge anywhere in the limits; also the transition after an earlier arbitrary one, beside simulators of another network with the same identifiers"
STUBS = "the sparse linear solver is replaced by an arbitrary vector; cosine, sine and angle are exact symbols; the convex solver returns any feasible point"
OUTSIDE = "undefined (NaN) voltages; rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80)
T = 1e-6


def judge(S, cs, script=None, before=False):
    sim = ready(S, cs, before)
    S.linear(script or [lambda n: iterate(S, n)])
    state, _, _, _, ok = transition(S, sim, cs)
    v = volts(S, sim)
    finite = S.And(*[S.isfinite(x.real) & S.isfinite(x.imag) for x in v.values()])
    if not S.implied(finite):
        S.stop()
    base = cs.base
    kv = {b[0]: b[2] for b in cs.buses}
    deg = 180 / math.pi

    def same(name, key, unit, ids, factor, ref="pu"):
        S.check("%s: the same elements in every unit" % name, set(state[key][unit]) == set(ids) and set(state[key][ref]) == set(ids))
        for i in ids:
            f = factor(i) if callable(factor) else factor
            S.check("%s: %s is the %s value converted" % (name, unit, ref), S.eq(state[key][unit][i], state[key][ref][i] * f, T))

    bus = [b[0] for b in cs.buses]
    dev = [d[0] for d in cs.devices]
    brs = [(b[0], b[1]) for b in cs.branches]
    same("bus active power", "bus_p", "MW", bus, base)
    same("bus reactive power", "bus_q", "MVAr", bus, base)
    same("bus voltage magnitude", "bus_v_magn", "kV", bus, lambda i: kv[i])
    same("bus voltage angle", "bus_v_ang", "degree", bus, deg, "rad")
    same("bus current magnitude", "bus_i_magn", "kA", bus, lambda i: base / kv[i])
    same("bus current angle", "bus_i_ang", "degree", bus, deg, "rad")
    same("device active power", "dev_p", "MW", dev, base)
    same("device reactive power", "dev_q", "MVAr", dev, base)
    same("state of charge", "des_soc", "MWh", [d[0] for d in cs.devices if d[2] == 3], base)
    same("available power", "gen_p_max", "MW", [d[0] for d in cs.devices if d[2] in (1, 2)], base)
    same("branch active power", "branch_p", "MW", brs, base)
    same("branch reactive power", "branch_q", "MVAr", brs, base)
    same("branch apparent power", "branch_s", "MVA", brs, base)
    same("branch current angle", "branch_i_ang", "degree", brs, deg, "rad")

    def magn(name, x, z):
        S.check(name, S.And(S.eq(x * x, z.real * z.real + z.imag * z.imag, T)))

    for i in bus:
        b = sim.buses[i]
        S.check("bus magnitudes are not negative", S.And(S.ge(state["bus_v_magn"]["pu"][i], 0.0), S.ge(state["bus_i_magn"]["pu"][i], 0.0)))
        magn("bus voltage magnitude is that of the voltage", state["bus_v_magn"]["pu"][i], b.v)
        magn("bus current magnitude is that of the current", state["bus_i_magn"]["pu"][i], b.i)
        angle(S, "bus voltage angle is that of the voltage", state["bus_v_ang"]["rad"][i], b.v)
        angle(S, "bus current angle is that of the current", state["bus_i_ang"]["rad"][i], b.i)
        S.check("bus powers are those of the bus", S.And(S.eq(state["bus_p"]["pu"][i], b.p), S.eq(state["bus_q"]["pu"][i], b.q)))
    for k in brs:
        z = sim.branches[k].i_from
        magn("branch current magnitude is that of the current", state["branch_i_magn"]["pu"][k], z)
        angle(S, "branch current angle is that of the current", state["branch_i_ang"]["rad"][k], z)
    for d in cs.devices:
        if d[2] == 3:
            S.check("reported charge is that of the unit", S.eq(state["des_soc"]["pu"][d[0]], sim.devices[d[0]].soc))
        if d[2] in (1, 2):
            S.check("reported available power is that of the generator", S.eq(state["gen_p_max"]["pu"][d[0]], sim.devices[d[0]].p_pot))


def angle(S, name, a, z):
    """a is an angle of z, the principal one."""
    S.check(name, S.And(S.le(a, math.pi, 1e-9), S.ge(a, -math.pi, 1e-9), S.eq(a, S.ang(z), T)))


def symbolic_bases(S):
    cs = two(base=S.real("base", 1, 1000))
    cs.buses[0][2] = S.real("kv0", 0.1, 500)
    cs.buses[1][2] = S.real("kv1", 0.1, 500)
    judge(S, cs)


case("two buses, symbolic bases", **Q)(symbolic_bases)
case("transformer, slack not first", **Q)(lambda S: judge(S, tx()))
case("mesh", **Q)(lambda S: judge(S, mesh()))
case("every device type", **Q)(lambda S: judge(S, mixed(base=40)))
case("two buses, second transition", **Q)(lambda S: judge(S, two(), before=True))
case("small, second transition", **Q)(lambda S: judge(S, small(), before=True))
