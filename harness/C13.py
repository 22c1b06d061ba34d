"""C13 A transition reported as converged satisfies the power balance."""
from .grid import *

CASES, case = registry()
BOUNDS = "networks of 2 and 3 buses (radial, meshed, transformer with phase shift, slack in any position, gaps in the numbering, several devices per bus); for two buses also symbolic line parameters; arbitrary load-flow iterates: the linear solver returns any vector with angles in [-3, 3] rad and magnitude corrections in [-2, 2], or NaN, in its first call (thorough: first two), and no progress afterwards up to the iteration limit of the code; injections in [-50, 50] MW; also the transition after an earlier arbitrary one, beside simulators of another network with the same identifiers"
STUBS = "the sparse linear solver is replaced by an arbitrary vector (a superset of what it can return); cosine and sine of symbolic angles are any point of the unit circle; the convex solver returns any feasible point"
OUTSIDE = "that the real iteration reaches a solution (C41); rounding"
TOL = 1.0001e-5


def judge(S, cs, script=None, before=False):
    sim = ready(S, cs, before)
    if script is None:
        kind = S.choice("linear solver", ["any", "nan"])
        script = [lambda n: iterate(S, n)] if kind == "any" else ["nan"]
    S.linear(script)
    state, _, _, _, ok = transition(S, sim, cs)
    v = volts(S, sim)
    slack = [b for b in cs.buses if b[1] == 0][0]
    S.check("the slack bus is at its reference voltage", S.eq(v[slack[0]], S.cplx(slack[3] + 0.0, 0.0)))
    finite = all_finite(S, v)
    if bool(ok):
        S.check("a converged run has defined voltages", finite)
        if not S.implied(finite):
            S.stop()
        leaving = injected(S, cs, v)
        for b in cs.buses:
            if b[1] == 0:
                continue
            p = sum(state["dev_p"]["pu"][d[0]] for d in cs.devices if d[1] == b[0])
            q = sum(state["dev_q"]["pu"][d[0]] for d in cs.devices if d[1] == b[0])
            m = leaving[b[0]] - S.cplx(p + 0.0, q + 0.0)
            S.check("converged voltages balance the power of every non-slack bus within the tolerance", S.And(*[S.And(S.le(x, TOL, 1e-9), S.le(-TOL, x, 1e-9)) for x in (m.real, m.imag)]))
        S.check("the simulator's flag agrees", S.And(sim.pfe_converged == True))
    else:
        S.check("an unconverged run is flagged", S.And(sim.pfe_converged == False))


def all_finite(S, v):
    return S.And(*[S.isfinite(x.real) & S.isfinite(x.imag) for x in v.values()])


def symbolic_line(S):
    judge(S, two(r=0.0, x=S.real("x", 0.01, 1), b=0.1))


def symbolic_impedance(S):
    judge(S, two(r=S.real("r", 0, 1), x=S.real("x", 0.01, 1), b=0.1))


def symbolic_transformer(S):
    judge(S, two(r=S.real("r", 0, 1), x=S.real("x", 0.01, 1), b=S.real("b", 0, 1), tap=S.real("tap", 0.5, 2)))


Q = dict(time=150, branch_ms=150, branch_nl_ms=150, implied_ms=80)
case("two buses", **Q)(lambda S: judge(S, two()))
case("two buses, symbolic line", **Q)(symbolic_line)
case("transformer, slack not first", **Q)(lambda S: judge(S, tx()))
case("mesh", **Q)(lambda S: judge(S, mesh()))
case("every device type", **Q)(lambda S: judge(S, mixed()))
case("mesh, two iterates", tier="thorough", **dict(Q, time=600))(lambda S: judge(S, mesh(), [lambda n: iterate(S, n), lambda n: iterate(S, n, k=1)]))
case("transformer, two iterates", tier="thorough", **dict(Q, time=600))(lambda S: judge(S, tx(), [lambda n: iterate(S, n), lambda n: iterate(S, n, k=1)]))
case("two buses, symbolic impedance", tier="thorough", **dict(Q, time=600))(symbolic_impedance)
case("two buses, symbolic transformer", tier="thorough", **dict(Q, time=600))(symbolic_transformer)
case("two buses, second transition", **Q)(lambda S: judge(S, two(), before=True))
case("small, second transition", **Q)(lambda S: judge(S, small(), before=True))
