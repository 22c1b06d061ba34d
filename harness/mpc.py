"""The optimisation problems of the MPC agents, evaluated at arbitrary plans."""
import math
from .envs import *

MPC = "gym_anm.agents.mpc"
CONST = "gym_anm.agents.mpc_constant"
PERFECT = "gym_anm.agents.mpc_perfect"
KINDS = {"load": (-1,), "gen": (1, 2), "des": (3,), "dev": (-1, 0, 1, 2, 3)}


def of(cs, kind):
    """Identifiers of the devices of a kind, in ascending order."""
    return sorted(d[0] for d in cs.devices if d[2] in KINDS[kind])


class Limits(object):
    """A box of actions."""

    def __init__(self, low, high):
        self.low, self.high, self.shape = low, high, (len(low),)


class Env(object):
    """What the agents see of an environment."""

    def __init__(self, S, cs, **k):
        self.simulator = sim_of(S, cs, **k)
        self.cs = cs
        n = 2 * len(of(cs, "gen") + of(cs, "des"))
        self.action_space = Limits(S.np.array([-1000.0] * n), S.np.array([1000.0] * n))

    def put(self, socs, powers=None, pots=None):
        """Set the current state (per-unit)."""
        b, st = self.cs.base, {}
        for key, units in QUANTITIES.items():
            st[key] = {u: {i: 0.125 * n for n, i in enumerate(ids(self.cs, key))} for u in units}
        for key, vals in (("des_soc", socs), ("dev_p", powers), ("gen_p_max", pots)):
            for i, x in (vals or {}).items():
                st[key]["pu"][i] = x
                st[key]["MWh" if key == "des_soc" else "MW"][i] = x * b
        self.simulator.state = st
        for i, x in socs.items():
            self.simulator.devices[i].soc = x
        return st


def agent(S, env, steps, forecast, gamma=0.9, margin=0.9, beside=False):
    """An agent with scripted forecasts (the documented way to extend the base class); beside: another agent is made afterwards."""
    cls = type("Agent", (S.mod(MPC).MPCAgent,), {"forecast": lambda self, e: forecast()})
    ag = cls(env.simulator, env.action_space, gamma, safety_margin=margin, planning_steps=steps)
    if beside:
        o = Env(S, only_gens(25), lamb=3, dt=0.5)
        cls(o.simulator, o.action_space, 0.5, safety_margin=0.25, planning_steps=1)
    return ag


class Solver(object):
    """Stands for the convex solver: answers any plan, and remembers the problem."""

    def __init__(self, S, env, steps, aux="free", first=None):
        self.S, self.cs, self.N, self.aux, self.calls, self.first = S, env.cs, steps, aux, 0, first
        self.dev, self.bus = list(env.simulator.devices), list(env.simulator.buses)
        assert len(self.dev) != len(self.bus)
        S.patch_obj(S.mod("cvxpy").Problem, "solve", lambda problem, *a, **k: self.solve(problem))

    def put(self, v, vals):
        if self.S.symbolic:
            v._value = self.S.np.array(vals).reshape(v.shape)
        else:
            import numpy as np
            v.save_value(np.array([float(x) for x in vals]).reshape(v.shape))

    def solve(self, problem):
        S, n = self.S, self.calls
        self.calls += 1
        vs = sorted(problem.variables(), key=lambda v: v.id)
        ps = [v for v in vs if v.shape == (len(self.dev),)]
        ts = [v for v in vs if v.shape == (len(self.bus),)]
        rest = [v for v in vs if v.shape not in ((len(self.dev),), (len(self.bus),))]
        S.check("a plan has a stage for each step", len(ps) == len(ts) == self.N)
        self.P, self.T = [], []
        for k, (v, w) in enumerate(zip(ps, ts)):
            self.P.append({d: S.real("plan%d_%d_%d" % (n, k, d), -100, 100) for d in self.dev})
            self.T.append({b: S.real("angle%d_%d_%d" % (n, k, b), -10, 10) for b in self.bus})
            self.put(v, [self.P[k][d] for d in self.dev])
            self.put(w, [self.T[k][b] for b in self.bus])
        if self.aux == "free":
            for k, v in enumerate(rest):
                self.put(v, [S.real("aux%d_%d_%d" % (n, k, j), -100, 100) for j in range(v.size)])
        self.rest, self.problem = rest, problem
        problem._status = "optimal"
        if S.symbolic:
            problem.status = "optimal"
        return 0.0

    def split(self, first):
        """No unit charges and discharges at the same time."""
        S, des = self.S, of(self.cs, "des")
        flat = []
        for k in range(self.N):
            for i in des:
                x = self.P[k][i]
                up, down = S.max(x, 0.0), S.max(-x, 0.0)
                flat.append((down, up) if first == "charging" else (up, down))
        return flat

    def place(self, first):
        flat = self.split(first)
        if all(v.size == 1 for v in self.rest):
            vals = [x for pair in flat for x in pair]
        else:
            m = len(of(self.cs, "des"))
            vals = []
            for k in range(self.N):
                vals += [p[0] for p in flat[k * m:(k + 1) * m]] + [p[1] for p in flat[k * m:(k + 1) * m]]
        if sum(v.size for v in self.rest) != len(vals):
            return False
        for v in self.rest:
            self.put(v, vals[:v.size])
            vals = vals[v.size:]
        return True

    # -- the problem at the given values
    def parts(self):
        """Scalar constraints (a, b, equality?)."""
        out = []
        for c in self.problem.constraints:
            if self.S.symbolic:
                env = {l: l._value for l in c.leaves}
                out += [(x, y, c.op == "==") for x, y in c.diffs(env)]
            else:
                import numpy as np
                x, y = np.broadcast_arrays(np.asarray(c.args[0].value, float), np.asarray(c.args[1].value, float))
                out += [(float(p), float(q), type(c).__name__ in ("Equality", "Zero")) for p, q in zip(x.reshape(-1), y.reshape(-1))]
        return out

    def finite(self):
        """No infinite numbers are given to the solver (it does not support them)."""
        return all(self.S.isfinite(z) is not False for x, y, e in self.parts() for z in (x, y))

    def holds(self):
        S = self.S
        conds = [S.eq(x, y) if e else S.le(x, y) for x, y, e in self.parts()]
        for v in self.problem.variables():
            if self.S.symbolic:
                if v.nonneg or v.nonpos:
                    conds += [S.le(0, x) if v.nonneg else S.le(x, 0) for x in v._value.reshape(-1)]
            else:
                import numpy as np
                if v.attributes["nonneg"] or v.attributes["nonpos"]:
                    conds += [S.le(0, float(x)) if v.attributes["nonneg"] else S.le(float(x), 0) for x in np.asarray(v.value).reshape(-1)]
        return S.And(*conds)

    def cost(self):
        if self.S.symbolic:
            env = {l: l._value for l in self.problem.objective.leaves}
            x = self.problem.objective.e.ev(env).reshape(-1)[0]
            return x if self.problem.objective.sign > 0 else -x
        x = float(self.problem.objective.args[0].value)
        return x if type(self.problem.objective).__name__ == "Minimize" else -x


def susceptance(S, br):
    """Imaginary parts of the two entries of the nodal admittance matrix."""
    y, sh, t = pi(S, br)
    return (-(y / t.conjugate())).imag, (-(y / t)).imag


def branch_flows(S, cs, T):
    return {(br[0], br[1]): susceptance(S, br)[0] * (T[br[0]] - T[br[1]]) for br in cs.branches}


def documented(S, cs, P, T, loads, pots, socs, dt=0.25):
    """The documented constraints of one plan: {name: condition}."""
    b, out = cs.base, {}
    bal, ld, gl, gf, dl, ang, ref = [], [], [], [], [], [], []
    low, high, later, exact = [], [], [], []
    s_clip, s_true = dict(socs), dict(socs)
    slackbus = [d[1] for d in cs.devices if d[2] == 0][0]
    for k in range(len(P)):
        net_ = {x[0]: 0.0 for x in cs.buses}
        for d in cs.devices:
            net_[d[1]] = net_[d[1]] + P[k][d[0]]
        for br in cs.branches:
            bf, bt = susceptance(S, br)
            net_[br[0]] = net_[br[0]] - bf * (T[k][br[0]] - T[k][br[1]])
            net_[br[1]] = net_[br[1]] - bt * (T[k][br[1]] - T[k][br[0]])
        bal += [S.eq(x, 0) for x in net_.values()]
        for d in cs.devices:
            i, typ, pmax, pmin, smax, smin, eff = d[0], d[2], d[4], d[5], d[12], d[13], d[14]
            p = P[k][i]
            if typ == -1:
                ld.append(S.eq(p, loads[k][i]))
            elif typ in (1, 2):
                gl += [S.le(pmin / b if pmin is not None else 0, p)] + ([S.le(p, pmax / b)] if pmax is not None else [])
                gf.append(S.le(p, pots[k][i]))
            elif typ == 3:
                dl += ([S.le(pmin / b, p)] if pmin is not None else []) + ([S.le(p, pmax / b)] if pmax is not None else [])
                eff = 1.0 if eff is None else eff
                law = lambda s: s - dt * S.ite(S.le(p, 0), p * eff, p / eff)
                s_clip[i], s_true[i] = S.min(law(s_clip[i]), smax / b), law(s_true[i])
                low.append(S.le(smin / b, s_clip[i]))
                exact.append(S.le(smin / b, s_true[i]))
                (later if k else high).append(S.le(s_true[i], smax / b))
        ang += [S.le(-math.pi, x) for x in T[k].values()] + [S.le(x, math.pi) for x in T[k].values()]
        ref.append(S.eq(T[k][slackbus], 0))
    for n, c in (("the power balances at every bus", bal), ("loads follow their forecasts", ld), ("generators stay within their limits", gl), ("generators stay below their forecasts", gf),
                 ("storage units stay within their power limits", dl), ("the planned discharging can be carried out", low), ("the planned charging fits", high), ("the planned charging of later stages fits", later),
                 ("bus angles are at most pi", ang), ("the angle of the slack bus is zero", ref)):
        out[n] = S.And(*c) if c else True
    return out, S.And(*(exact or [True]))


def documented_cost(S, cs, P, T, gamma, margin, lamb=100):
    total = 0.0
    for k in range(len(P)):
        c = 0.0
        for d in cs.devices:
            if d[2] in (0, 1):
                c = c + P[k][d[0]]
        f = branch_flows(S, cs, T[k])
        for br in cs.branches:
            if br[5] is not None:
                c = c + lamb * S.max(0.0, S.abs(f[(br[0], br[1])]) - margin * (br[5] / cs.base))
        total = total + gamma ** k * c
    return total


def series(S, cs, N, tag=""):
    """Any forecasts (per-unit): rows in ascending order of identifiers."""
    loads = [{i: S.real("load%s%d_%d" % (tag, k, i), -50, 0) for i in of(cs, "load")} for k in range(N)]
    pots = [{i: S.real("pot%s%d_%d" % (tag, k, i), 0, 50) for i in of(cs, "gen")} for k in range(N)]
    arr = lambda rows, kind: S.np.array([[r[i] for r in rows] for i in of(cs, kind)]) if of(cs, kind) else S.np.zeros((0, N))
    return loads, pots, (arr(loads, "load"), arr(pots, "gen"))


def contents(S, cs, tag=""):
    return {d[0]: S.real("soc%s%d" % (tag, d[0]), d[13] / cs.base, d[12] / cs.base) for d in cs.devices if d[2] == 3}
