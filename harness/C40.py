"""C40 Rendering limits describe the network's operating limits."""
from .envs import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses with up to 8 devices, unordered and gapped identifiers; symbolic device limits in [-100, 100] MW, voltage limits in [0.5, 1.5], base voltages in [1, 400] kV, rates in [0, 500] MVA, charge limits in [0, 100] MWh; base power symbolic in [1, 1000]"
STUBS = "none"
OUTSIDE = "limits that are not given (they are unbounded); rounding"


def symbolic(S, cs):
    from .C21 import limits
    cs = limits(S, cs)
    for b in cs.buses:
        n = "%d" % b[0]
        b[2] = S.real("kv" + n, 1, 400)
        b[3], b[4] = S.real("vmax" + n, 1, 1.5), S.real("vmin" + n, 0.5, 1)
    for k, b in enumerate(cs.branches):
        b[5] = S.real("rate%d" % k, 0, 500)
    return cs


def judge(S, mk, base=None):
    cs = symbolic(S, mk())
    cs.base = base or S.real("base", 1, 1000)
    sp = sim_of(S, cs).get_rendering_specs()
    row = {d[0]: d for d in cs.devices}
    bus = {b[0]: b for b in cs.buses}

    def pair(name, got, lo, hi):
        S.check(name, S.And(S.eq(got[0], lo), S.eq(got[1], hi)))

    S.check("every bus has its voltage limits", list(sp["bus_v"]) == sorted(bus))
    for i, b in bus.items():
        pair("voltage limits in p.u.", sp["bus_v"][i]["pu"], b[4], b[3])
        pair("voltage limits in kV", sp["bus_v"][i]["kV"], b[4] * b[2], b[3] * b[2])
    S.check("every branch has its rate", list(sp["branch_s"]) == [(b[0], b[1]) for b in cs.branches])
    for b in cs.branches:
        pair("branch limits in MVA", sp["branch_s"][b[0], b[1]]["MVA"], 0, b[5])
        pair("branch limits in p.u.", sp["branch_s"][b[0], b[1]]["pu"], 0, b[5] / cs.base)
    S.check("every device has its type and limits", list(sp["dev_type"]) == sorted(row) and list(sp["dev_p"]) == sorted(row) and list(sp["dev_q"]) == sorted(row))
    tot = {i: [0, 0, 0, 0] for i in bus}
    for i, d in row.items():
        S.check("the type of each device", sp["dev_type"][i] == d[2])
        p = (d[5], d[4])
        if d[2] == -1:
            x, y = d[3] * d[4], d[3] * d[5]
            q = (S.min(x, y), S.max(x, y))
        else:
            q = (d[7], d[6])
        pair("active limits in MW", sp["dev_p"][i]["MW"], *p)
        pair("reactive limits in MVAr", sp["dev_q"][i]["MVAr"], *q)
        pair("active limits in p.u.", sp["dev_p"][i]["pu"], p[0] / cs.base, p[1] / cs.base)
        pair("reactive limits in p.u.", sp["dev_q"][i]["pu"], q[0] / cs.base, q[1] / cs.base)
        for k, x in enumerate(p + q):
            tot[d[1]][k] = tot[d[1]][k] + x
    S.check("the storage units have their capacity", list(sp["des_soc"]) == ids(cs, "des_soc"))
    for i in ids(cs, "des_soc"):
        pair("charge limits in MWh", sp["des_soc"][i]["MWh"], row[i][13], row[i][12])
        pair("charge limits in p.u.", sp["des_soc"][i]["pu"], row[i][13] / cs.base, row[i][12] / cs.base)
    S.check("every bus has its injection limits", sorted(sp["bus_p"]) == sorted(bus) and sorted(sp["bus_q"]) == sorted(bus))
    for i in bus:
        pair("injection limits of the buses in MW", sp["bus_p"][i]["MW"], tot[i][0], tot[i][1])
        pair("injection limits of the buses in MVAr", sp["bus_q"][i]["MVAr"], tot[i][2], tot[i][3])


def easy(S):
    env = S.mod(EASY).ANM6Easy()
    S.check("the environment keeps the limits of its network", env.network_specs == env.simulator.get_rendering_specs())


for mk in NETS + [mixed]:
    case("limits, %s" % mk.__name__)(lambda S, mk=mk: judge(S, mk, 40))
case("limits, any base power")(lambda S: judge(S, only_gens))
case("limits, any base power, all types", tier="thorough", time=300)(lambda S: judge(S, mixed))
case("ANM6Easy")(easy)
