"""C11 Networks are accepted exactly when structurally consistent."""
from .lib import *
from . import net

CASES, case = registry()
BOUNDS = "networks of up to 3 buses, 4 devices and 3 branches; identifiers, types and endpoints are symbolic integers in [0, 3] (types in [-1, 3]) or absent; base power an arbitrary real in [-1000, 1000]; also of a description from which something has been constructed before"
STUBS = "none"
OUTSIDE = "larger networks; identifiers that are not integers; unknown device types (they raise NotImplementedError, as documented)"
INT = "InputNetworkFileError"


def dev(i, b, t):
    # fields that are valid for every type of device
    return [i, b, t, 0.5, 0, 0, 1, -1, None, None, None, None, 10, 0, 0.9]


def distinct(S, xs):
    return S.And(*[S.Not(S.eq(a, b)) for i, a in enumerate(xs) for b in xs[i + 1:]])


def among(S, x, xs):
    return S.Or(*[S.eq(x, y) for y in xs])


def count(S, xs, v):
    n = 0
    for x in xs:
        n = n + S.ite(S.eq(x, v), 1, 0)
    return n


def rules(S, base, buses, branches, devices):
    """[(error class, rule)]"""
    ids, types = [b[0] for b in buses], [b[1] for b in buses]
    dt = [d[2] for d in devices]
    R = [("BaseMVAError", S.lt(0, base)), ("BusSpecError", S.eq(count(S, types, 0), 1)), ("BusSpecError", S.And(*[among(S, t, (0, 1)) for t in types])),
         ("BusSpecError", distinct(S, ids)), ("DeviceSpecError", distinct(S, [d[0] for d in devices])), ("DeviceSpecError", S.eq(count(S, dt, 0), 1)),
         ("DeviceSpecError", S.And(*[among(S, d[1], ids) for d in devices])),
         ("DeviceSpecError", S.And(*[S.Implies(S.And(S.eq(d[2], 0), S.eq(b[1], 0)), S.eq(d[1], b[0])) for d in devices for b in buses]))]
    for i, (f, t) in enumerate(branches):
        R.append(("BranchSpecError", S.And(among(S, f, ids), among(S, t, ids), S.Not(S.eq(f, t)))))
        for g, u in branches[:i]:
            R.append(("BranchSpecError", S.Not(S.Or(S.And(S.eq(f, g), S.eq(t, u)), S.And(S.eq(f, u), S.eq(t, g))))))
    return R


def judge(S, base, buses, branches, devices, twice=False):
    sim = S.mod(SIM)
    br = [net.branch(f, t) for f, t in branches]
    n = {"baseMVA": base, "bus": S.np.array([[b[0], b[1], 50, 1.1, 0.9] for b in buses]), "device": S.np.array([dev(*d) for d in devices]),
         "branch": S.np.array(br) if br else S.np.zeros((0, 8))}
    if twice:
        S.call(sim.Simulator, n, 0.25, 100)
    o = S.call(sim.Simulator, n, 0.25, 100)
    R = rules(S, base, buses, branches, devices)
    ok = S.And(*[r for _, r in R])
    if o.ok:
        S.check("an accepted network is structurally consistent", ok)
        s = o.value
        S.check("an accepted network keeps all its buses, branches and devices", len(s.buses) == len(buses) and len(s.branches) == len(branches) and len(s.devices) == len(devices))
        S.check("branches keep their ends", S.And(*[S.Or(*[S.And(S.eq(br.f_bus, f), S.eq(br.t_bus, t)) for br in s.branches.values()]) for f, t in branches]) if branches else True)
    else:
        S.check("a rejected network is structurally inconsistent", S.Not(ok))
        S.check("the error is the one of the violated rule", S.Or(*[S.Not(r) for c, r in R if o.isa(c)]) if any(o.isa(c) for c, _ in R) else False)


TWO = [(0, 0), (1, 1)]
DEVS = [(0, 0, 0), (1, 1, -1)]


@case("base power")
def base(S):
    judge(S, S.real("baseMVA", -1000, 1000), TWO, [(0, 1)], DEVS)


@case("bus identifiers")
def bus_ids(S):
    ids = [S.int("bus%d" % i, 0, 3) for i in range(3)]
    judge(S, 100, [(ids[0], 0), (ids[1], 1), (ids[2], 1)], [], [(0, S.int("dev_bus", 0, 3), 0)])


@case("bus types")
def bus_types(S):
    ts = [S.int("type%d" % i, -1, 2) for i in range(3)]
    judge(S, 100, [(2, ts[0]), (0, ts[1]), (3, ts[2])], [(0, 2), (3, 0)], [(0, S.int("dev_bus", 0, 3), 0), (5, 3, -1)])


@case("device identifiers")
def dev_ids(S):
    ids = [S.int("dev%d" % i, 0, 3) for i in range(4)]
    judge(S, 100, TWO, [(0, 1)], [(ids[0], 0, 0), (ids[1], 1, -1), (ids[2], 1, 1), (ids[3], 1, 3)])


@case("device buses and types")
def dev_types(S):
    d = [(i, S.int("dev_bus%d" % i, 0, 2), S.int("type%d" % i, -1, 3)) for i in range(2)]
    judge(S, 100, TWO, [(0, 1)], d)


@case("device buses and types, three devices", tier="thorough", time=600)
def dev_types3(S):
    d = [(i, S.int("dev_bus%d" % i, 0, 2), S.int("type%d" % i, -1, 3)) for i in range(3)]
    judge(S, 100, [(0, 1), (2, 0)], [(0, 2)], d)


def branches(S, ids, hi, fixed, n):
    bs = [(S.int("from%d" % i, 0, hi), S.int("to%d" % i, 0, hi)) for i in range(n)]
    judge(S, 100, [(ids[0], 0)] + [(i, 1) for i in ids[1:]], fixed + bs, [(0, ids[0], 0)])


case("branch ends")(lambda S: branches(S, (0, 1, 2), 3, [], 2))
case("branch ends, slack last, gaps")(lambda S: branches(S, (2, 0, 3), 3, [], 2))
case("one more branch")(lambda S: branches(S, (0, 1, 2), 3, [(0, 1), (2, 1)], 1))
case("three branches", tier="thorough", time=800)(lambda S: branches(S, (0, 1, 2), 2, [], 3))


case("all together")(lambda S: together(S))
case("described once")(lambda S: together(S, True))


def together(S, twice=False):
    """A branch, a bus and a device at once."""
    a, b = S.int("bus_a", 0, 2), S.int("bus_b", 0, 2)
    judge(S, 100, [(a, 0), (b, 1)], [(S.int("from", 0, 2), S.int("to", 0, 2))], [(0, a, 0), (1, S.int("dev_bus", 0, 2), -1)], twice)


@case("absent identifiers")
def absent(S):
    which = S.choice("which", ["bus", "dev", "dev bus", "slack dev bus", "from", "to", "bus type"])
    pos = S.choice("pos", [0, 1])
    bs = [[0, 0, 50, 1.1, 0.9], [1, 1, 50, 1.1, 0.9]]
    ds = [dev(0, 0, 0), dev(1, 1, -1)]
    br = net.branch(0, 1)
    if which == "bus":
        bs[pos][0] = None
    elif which == "bus type":
        bs[1][1] = None
    elif which == "dev":
        ds[pos][0] = None
    elif which == "dev bus":
        ds[1][1] = None
    elif which == "slack dev bus":
        ds[0][1] = None
    else:
        br[0 if which == "from" else 1] = None
    n = {"baseMVA": 100, "bus": S.np.array(bs), "device": S.np.array(ds), "branch": S.np.array([br])}
    o = S.call(S.mod(SIM).Simulator, n, 0.25, 100)
    S.check("a network with an absent identifier is rejected", not o.ok)
    if not o.ok:
        S.check("with a network specification error", o.isa(INT))
