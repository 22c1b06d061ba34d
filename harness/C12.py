"""C12 The description order of a network does not matter."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses (radial, meshed, transformer with phase shift, every type of device); all orders of bus, branch and device rows of the small ones and some of the others; renamings that reverse, rotate or spread the identifiers and move the slack bus and slack device; any inputs, states of charge, load-flow iterate; line resistance, reactance, charging and tap also arbitrary for 2 buses; transitions, resets, advertised bounds and action spaces"
STUBS = "the convex solver is a function of its problem (equal problems, equal answers, any feasible point); the sparse linear solver gives each bus the same arbitrary step in both networks (the entry of each bus is found by a probe)"
OUTSIDE = "the order of the two ends of a branch; rounding"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80, functional=True, cp_infeasible=False)


def renamed(cs, perm, bm, dm):
    """The same network with permuted rows and renamed buses and devices."""
    order = lambda rows, p: [rows[i] for i in (p if p is not None else range(len(rows)))]
    buses = [[bm[b[0]]] + b[1:] for b in order(cs.buses, perm[0])]
    branches = [[bm[b[0]], bm[b[1]]] + b[2:] for b in order(cs.branches, perm[1])]
    devices = [[dm[d[0]], bm[d[1]]] + d[2:] for d in order(cs.devices, perm[2])]
    return Case(buses, branches, devices, cs.base)


def step(S, cs, inv=None):
    """One step per bus, laid out for this network (inv: its names of the buses); none if the solutions are about something else."""
    out = [0.0] * (2 * (len(cs.buses) - 1))
    where = layout(S, cs)[1] if len(cs.buses) > 2 else {b[0]: ((0, 1), (1, 1)) for b in cs.buses if b[1]}
    for b, ((pa, sa), (pm, sm)) in (where or {}).items():
        name = inv[b] if inv else b
        out[pa] = sa * S.once("ang%d" % name, -3, 3)
        out[pm] = sm * S.once("mag%d" % name, -2, 2)
    return out


def value(S, x):
    return S.isfinite(x) is not False if S.symbolic else S.isfinite(x)


def compare(S, a, b, bm, dm, what):
    t = None if S.symbolic else 1e-3
    S.check("the same quantities", sorted(a) == sorted(b))
    for k in a:
        for u in a[k]:
            to = (lambda i: (bm[i[0]], bm[i[1]])) if k.startswith("branch") else (lambda i: bm[i]) if k.startswith("bus") else (lambda i: dm[i])
            S.check("the same elements have a %s" % k, sorted(map(to, a[k][u])) == sorted(b[k][u]))
            for i in a[k][u]:
                x, y = a[k][u][i], b[k][u].get(to(i), math.inf)
                for p, q in zip(x, y) if isinstance(x, (tuple, list)) else [(x, y)]:
                    if not value(S, p) and not value(S, q):
                        continue
                    S.check("%s: the same %s" % (what, k), S.eq(p, q, t))


def turned(d):
    """[quantity][element][unit] as [quantity][unit][element]."""
    out = {}
    for k in d:
        out[k] = {}
        for i in d[k]:
            for u in d[k][i]:
                out[k].setdefault(u, {})[i] = d[k][i][u]
    return out


def inputs(S, cs, dm=None, inv=None):
    n = (lambda i: inv[i]) if inv else (lambda i: i)
    return [{d[0]: S.once("%s%d" % (w, n(d[0])), -lim, lim) for d in cs.devices if d[2] in k} for w, k, lim in (("load", (-1,), 50), ("pot", (1, 2), 50), ("setp", (1, 2, 3), 50), ("setq", (1, 2, 3), 50))]


def body(S, cs, perm, bm, dm, reset=False, flat=False):
    other = renamed(cs, perm, bm, dm)
    ib, id_ = {v: k for k, v in bm.items()}, {v: k for k, v in dm.items()}
    out = []
    for c, inv_b, inv_d in ((cs, None, None), (other, ib, id_)):
        sim = sim_of(S, c)
        nd = inv_d or {d[0]: d[0] for d in c.devices}
        if flat:
            S.linear([])
        else:
            x = step(S, c, inv_b)
            S.linear([lambda n, x=x: x], force=False)
        if reset:
            ids_ = sorted(d[0] for d in c.devices)
            typ = {d[0]: d[2] for d in c.devices}
            vec = [S.once("P%d" % nd[i], -50, 50) for i in ids_] + [S.once("Q%d" % nd[i], -50, 50) for i in ids_]
            vec += [S.once("soc%d" % nd[i], 0, 100) for i in ids_ if typ[i] == 3] + [S.once("max%d" % nd[i], 0, 50) for i in ids_ if typ[i] in (1, 2)]
            ok = sim.reset(S.np.array(vec))
            out.append((sim, sim.state, 0.0, 0.0, 0.0, ok))
        else:
            for d in c.devices:
                if d[2] == 3:
                    sim.devices[d[0]].soc = S.once("soc%d" % nd[d[0]], d[13] / c.base, d[12] / c.base)
            out.append((sim,) + tuple(sim.transition(*inputs(S, c, dm, inv_d))))
    (s1, st1, r1, e1, p1, c1), (s2, st2, r2, e2, p2, c2) = out
    S.check("the same convergence", S.Iff(c1 == True, c2 == True))
    compare(S, st1, st2, bm, dm, "state")
    t = None if S.symbolic else 1e-3
    for n, x, y in (("reward", r1, r2), ("energy loss", e1, e2), ("penalty", p1, p2)):
        if value(S, x) or value(S, y):
            S.check("the same %s" % n, S.eq(x, y, t))
    compare(S, turned(s1.state_bounds), turned(s2.state_bounds), bm, dm, "bounds")
    for x, y in zip(s1.get_action_space(), s2.get_action_space()):
        S.check("the same devices have actions", sorted(dm[i] for i in x) == sorted(y))
        S.check("the same action bounds", S.And(*([S.And(S.eq(x[i][0], y[dm[i]][0]), S.eq(x[i][1], y[dm[i]][1])) for i in x] or [True])))


def small(base=40, line=None):
    return Case([net.bus(1), net.bus(2, True, vmax=1.02)], [line or net.branch(1, 2, 0.02, 0.06, 0.01, 60, 0.95, 30)], [net.load(5, 1, 0.2), net.storage(3, 1), net.gen(4, 2, 2), net.slack(2, 2)], base)


def spread(ids, how):
    ids = sorted(ids)
    n = len(ids)
    return {"same": dict(zip(ids, ids)), "reversed": dict(zip(ids, reversed(ids))), "rotated": dict(zip(ids, ids[1:] + ids[:1])), "spread": {i: 3 * (n - k) + (k % 2) for k, i in enumerate(ids)}}[how]


def run(S, mk, rows, names, **k):
    cs = mk()
    rev = lambda x: list(range(len(x)))[::-1]
    rot = lambda x: list(range(1, len(x))) + [0]
    perm = {"same": (None, None, None), "reversed": (rev(cs.buses), rev(cs.branches), rev(cs.devices)), "rotated": (rot(cs.buses), rot(cs.branches), rot(cs.devices)),
            "devices reversed": (None, None, rev(cs.devices)), "buses reversed": (rev(cs.buses), None, None), "branches rotated": (None, rot(cs.branches), None)}[rows]
    body(S, cs, perm, spread([b[0] for b in cs.buses], names), spread([d[0] for d in cs.devices], names), **k)


def line(S):
    """A branch with arbitrary parameters."""
    return [1, 2, S.once("r", 0.01, 2), S.once("x", 0.01, 2), S.once("b", 0, 1), S.once("rate", 1, 200), S.once("tap", 0.5, 2), 0.0]


WAYS = [("reversed", "same"), ("same", "reversed"), ("rotated", "spread")]
for rows, names in WAYS:
    w = ", %s rows, %s names" % (rows, names)
    case("small" + w, **Q)(lambda S, rows=rows, names=names: run(S, small, rows, names, flat=True))
    case("small, iterate" + w, tier="thorough", **Q)(lambda S, rows=rows, names=names: run(S, small, rows, names))
    case("small, reset" + w, **Q)(lambda S, rows=rows, names=names: run(S, small, rows, names, reset=True, flat=True))
    case("meshed" + w, **Q)(lambda S, rows=rows, names=names: run(S, mesh, rows, names))
    case("transformer" + w, **Q)(lambda S, rows=rows, names=names: run(S, tx, rows, names))
    case("transformer, reset" + w, tier="thorough", **Q)(lambda S, rows=rows, names=names: run(S, tx, rows, names, reset=True))
    case("every device type" + w, tier="thorough", **dict(Q, time=700))(lambda S, rows=rows, names=names: run(S, mixed, rows, names, flat=True))
    case("any line" + w, tier="thorough", **Q)(lambda S, rows=rows, names=names: run(S, lambda: small(line=line(S)), rows, names))
case("two buses, any line", **Q)(lambda S: run(S, lambda: Case(two().buses, [[0, 1] + line(S)[2:]], two().devices, 100), "reversed", "rotated"))
for rows in ("devices reversed", "buses reversed", "branches rotated"):
    case("meshed, " + rows, tier="thorough", **Q)(lambda S, rows=rows: run(S, mesh, rows, "same"))
