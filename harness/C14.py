"""C14 Each load-flow iteration is an exact Newton step."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses (radial, meshed, transformer with phase shift, slack in any position), any demands; the linear systems of the first iteration (flat profile) and of the second one, at three fixed voltage profiles and at any voltages with angles within 2.9 rad and magnitudes in [0.1, 1.9] p.u., with any step of up to 100 per bus that solves them; whole transitions of two buses with steps of at most 0.05 (rad, p.u.), with symbolic line parameters in the first step (thorough: also 3 buses, and symbolic line parameters everywhere); also the transition after an earlier arbitrary one, beside simulators of another network with the same identifiers"
STUBS = "the sparse linear solver returns an arbitrary vector in the first call of the second-iteration cases and an exact solution of its equations where a step is judged (the place of each bus in the solutions is found by a probe; if there is none, only the whole transitions are judged); cosine and sine of symbolic angles are any point of the unit circle"
OUTSIDE = "rounding; singular linearisations"
Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80, nr_bound=0.05, mm_split=False)


def step(S, cs, state, z1, z2, bound=0.05):
    """J(z1)(z2 - z1) + F(z1) = 0 at every bus but the slack bus."""
    slack = [b[0] for b in cs.buses if b[1] == 0][0]
    v, dv, small = {}, {}, []
    STEP = bound * 1.002 if S.symbolic else bound * 1.01 if bound > 0.1 else 0.2
    for i, (th, m) in z1.items():
        c, s = S.cos(th), S.sin(th)
        v[i] = S.cplx(m * c, m * s)
        dth, dm = z2[i][0] - th, z2[i][1] - m
        if i == slack:
            dv[i] = S.cplx(0.0, 0.0)
        else:
            dv[i] = S.cplx(dm * c - m * dth * s, dm * s + m * dth * c)
            small += [S.le(dth, STEP), S.ge(dth, -STEP), S.le(dm, STEP), S.ge(dm, -STEP)]
    S.assume(S.And(*small))
    if S.concrete and S.lin():
        # the whole step, not one that wrapped around
        S.assume(S.And(*[S.le(S.abs(x), 1) for x in S.lin()[-1]["x"]]))
    dev = state["dev_p"]["pu"], state["dev_q"]["pu"]
    balance(S, cs, v, dv, *dev)


def balance(S, cs, v, dv, p, q):
    slack = [b[0] for b in cs.buses if b[1] == 0][0]
    i0 = {b[0]: S.cplx(0.0, 0.0) for b in cs.buses}
    i1 = dict(i0)
    for br in cs.branches:
        for w, acc in ((v, i0), (dv, i1)):
            a, b = currents(S, br, w[br[0]], w[br[1]])
            acc[br[0]] = acc[br[0]] + a
            acc[br[1]] = acc[br[1]] + b
    for b in cs.buses:
        i = b[0]
        if i == slack:
            continue
        s = S.cplx(0.0, 0.0)
        for d in cs.devices:
            if d[1] == i:
                s = s + S.cplx(p[d[0]] + 0.0, q[d[0]] + 0.0)
        r = v[i] * i0[i].conjugate() - s + dv[i] * i0[i].conjugate() + v[i] * i1[i].conjugate()
        S.check("a step solves the linearised power balance", S.And(S.eq(r.real, 0.0, 1e-7), S.eq(r.imag, 0.0, 1e-7)))


def second(S, cs, fixed=None, bound=0.05):
    start = (lambda S, n: fixed[:n // 2] + fixed[2:2 + n // 2]) if fixed else anywhere
    sims = [ready(S, cs), ready(S, cs)]
    lo = cs_inputs(S, cs)
    x0 = None
    out = []
    calls = []
    for k, sim in enumerate(sims):
        S.linear([lambda n: start(S, n)] + (["exact"] if k else []), force=True)
        n0 = len(S.lin())
        out.append(sim.transition(*lo)[0])
        calls.append(len(S.lin()) - n0)
    if calls[1] < 2:
        S.stop()
    step(S, cs, out[1], polar(S, out[0], cs), polar(S, out[1], cs), bound)


def first(S, cs, bound=0.05):
    sim = ready(S, cs)
    lo = cs_inputs(S, cs)
    S.linear(["exact"], force=True)
    n0 = len(S.lin())
    st = sim.transition(*lo)[0]
    if len(S.lin()) == n0:
        S.stop()
    flat = {b[0]: (0.0, 1.0 if b[1] else b[3]) for b in cs.buses}
    step(S, cs, st, flat, polar(S, st, cs), bound)


def anywhere(S, n):
    return [S.once("x%d" % i, -2.9 if i < n // 2 else -0.9, 2.9 if i < n // 2 else 0.9) for i in range(n)]


def cs_inputs(S, cs):
    return ({d[0]: S.real("load%d" % d[0], d[5], d[4]) for d in cs.devices if d[2] == -1},) + gen_inputs(S, cs)


def line(S):
    return two(r=S.real("r", 0, 1), x=S.real("x", 0.01, 1), b=S.real("b", 0, 1), tap=S.real("tap", 0.5, 2))


case("first step, two buses", **Q)(lambda S: first(S, line(S)))
case("first step, transformer", tier="thorough", **Q)(lambda S: first(S, tx()))
case("first step, mesh", tier="thorough", **Q)(lambda S: first(S, mesh()))
class Halt(Exception):
    pass


def halt(n):
    raise Halt()


def wide(cs):
    """Two loads with different power factors at every bus but the slack bus."""
    slack = [d for d in cs.devices if d[2] == 0]
    loads = [net.load(20 + 2 * b[0] + k, b[0], qp, 0, -5000) for b in cs.buses if b[1] for k, qp in ((0, 0.25), (1, -2.0))]
    return Case(cs.buses, cs.branches, slack + loads, cs.base)


def system(S, cs, x1=None, before=False):
    """Any solution of the linear system of an iteration solves the linearised power balance."""
    flat, where = layout(S, cs)
    if where is None:
        S.stop()    # the linear systems are not about the polar coordinates: decided by the cases on whole steps
    sim = ready(S, cs, before)
    n = 2 * (len(cs.buses) - 1)
    if x1 == "any":
        x1 = anywhere(S, n)
        S.prefer(S.And(*[S.eq(x, y) for x, y in zip(x1, FIXED[0][:n // 2] + FIXED[0][2:2 + n // 2])]))
    elif x1:
        x1 = x1[:n // 2] + x1[2:2 + n // 2]
    S.linear(([lambda m: x1] if x1 else []) + [halt], force=True)
    n0 = len(S.lin())
    out = S.call(sim.transition, *cs_inputs(S, cs))
    if out.ok or len(S.lin()) != n0 + (2 if x1 else 1):
        S.stop()    # solved already
    if not out.isa("Halt"):
        raise out.exc
    rec = S.lin()[-1]
    A, b = rec["A"], list(rec["b"].reshape(-1))
    step = [S.real("step%d" % i, -100, 100) for i in range(n)]
    if S.symbolic:
        S.assume(S.And(*[S.eq(sum((A[i][j] * step[j] for j in range(n)), 0.0), b[i]) for i in range(n)]))
    else:
        import numpy as np
        S.assume(abs(np.linalg.det(A)) > 1e-6)
        step = np.linalg.solve(A, np.array(b, float))
    v, dv = {}, {}
    for i, (th, m) in flat.items():
        dth = dm = 0.0
        if i in where:
            (pa, sa), (pm, sm) = where[i]
            if x1:
                th, m = th + sa * x1[pa], m + sm * x1[pm]
            dth, dm = sa * step[pa], sm * step[pm]
        c, s = S.cos(th), S.sin(th)
        v[i] = S.cplx(m * c, m * s)
        dv[i] = S.cplx(dm * c - m * dth * s, dm * s + m * dth * c)
    balance(S, cs, v, dv, {d: sim.devices[d].p for d in sim.devices}, {d: sim.devices[d].q for d in sim.devices})


# steps of the solver: angles and magnitudes of (up to) two buses
FIXED = [[0.25, -0.5, 0.125, -0.0625], [-0.75, 0.375, -0.25, 0.03125], [2.5, -2.0, 0.5, 0.25]]
for n, mk in (("two buses", two), ("transformer", tx), ("mesh", mesh), ("several devices", mixed)):
    case("first system, %s" % n, **Q)(lambda S, mk=mk: system(S, wide(mk())))
    for k, x in enumerate(FIXED):
        case("second system, voltages %d, %s" % (k, n), **Q)(lambda S, mk=mk, x=x: system(S, wide(mk()), x))
    case("second system, any voltages, %s" % n, **Q)(lambda S, mk=mk: system(S, wide(mk()), "any"))
for n, mk in (("two buses", two), ("mesh", mesh)):
    case("second transition, %s" % n, **Q)(lambda S, mk=mk: system(S, wide(mk()), FIXED[0], True))
case("first system, any line", tier="thorough", **Q)(lambda S: system(S, wide(line(S))))
case("second system, any line, any voltages", tier="thorough", **dict(Q, time=600))(lambda S: system(S, wide(line(S)), "any"))
case("second step, two buses", **Q)(lambda S: second(S, two()))
case("second step, transformer", tier="thorough", **Q)(lambda S: second(S, tx()))
case("second step, mesh", tier="thorough", **dict(Q, time=600))(lambda S: second(S, mesh()))
