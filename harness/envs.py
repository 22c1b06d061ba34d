"""Environments over a simulator whose transitions give arbitrary results."""
from .grid import *

QUANTITIES = {"bus_p": ("MW", "pu"), "bus_q": ("MVAr", "pu"), "bus_v_magn": ("pu", "kV"), "bus_v_ang": ("degree", "rad"), "bus_i_magn": ("pu", "kA"),
              "bus_i_ang": ("degree", "rad"), "dev_p": ("MW", "pu"), "dev_q": ("MVAr", "pu"), "des_soc": ("MWh", "pu"), "gen_p_max": ("MW", "pu"),
              "branch_p": ("MW", "pu"), "branch_q": ("MVAr", "pu"), "branch_s": ("MVA", "pu"), "branch_i_magn": ("pu",), "branch_i_ang": ("degree", "rad")}


def ids(cs, key):
    """The elements a quantity refers to, in ascending order (branches in the given order)."""
    typ = key.split("_")[0]
    if typ == "bus":
        return sorted(b[0] for b in cs.buses)
    if typ == "branch":
        return [(b[0], b[1]) for b in cs.branches]
    kinds = {"dev": (-1, 0, 1, 2, 3), "des": (3,), "gen": (1, 2)}[typ]
    return sorted(d[0] for d in cs.devices if d[2] in kinds)


def state_size(cs, K):
    return 2 * len(cs.devices) + len(ids(cs, "des_soc")) + len(ids(cs, "gen_p_max")) + K


def next_size(cs, K):
    return len([d for d in cs.devices if d[2] == -1]) + len(ids(cs, "gen_p_max")) + K


def build(S, cs, K=1, dt=0.25, gamma=0.9, lamb=100, observation="state", aux_bounds=None, costs=None, init=None, nxt=None, methods=None, base=None):
    """An environment with scripted random processes."""
    Base = base or S.mod(ENV).ANMEnv
    d = {"init_state": lambda self: init(self), "next_vars": lambda self, s_t: nxt(self, s_t)}
    d.update(methods or {})
    network = net.network(S, cs.buses, cs.branches, cs.devices, cs.base)
    return type("Scripted", (Base,), d)(network, observation, K, dt, gamma, lamb, aux_bounds, costs)


def vector(S, tag, n, lo=-500, hi=500):
    return [S.real("%s_%d" % (tag, i), lo, hi, np_=True) for i in range(n)]


class Standin(object):
    """Stands for the transitions of the simulator: records what it is given, reports arbitrary results."""

    def __init__(self, S, env, cs, resets=None, converges=None, keys=None, results=None, tag=""):
        self.S, self.env, self.cs, self.tag = S, env, cs, tag
        self.calls, self.inits, self.states, self.results = [], [], [], []
        self.resets, self.converges, self.keys, self.res = resets or (lambda k: True), converges or (lambda k: True), keys, results
        S.patch_obj(env.simulator, "transition", self.transition)
        S.patch_obj(env.simulator, "reset", self.reset)

    def fresh(self):
        S, k, st = self.S, len(self.states), {}
        for key, units in QUANTITIES.items():
            st[key] = {}
            for u in units:
                st[key][u] = {}
                for n, i in enumerate(ids(self.cs, key)):
                    sym = self.keys is None or key in self.keys
                    st[key][u][i] = S.real("%ss%d_%s_%s_%d" % (self.tag, k, key, u, n), -500, 500, np_=True) if sym else 0.125 * n
        self.states.append(st)
        # the environment gets its own dictionaries, so that the record stays
        self.env.simulator.state = {a: {b: dict(c) for b, c in d.items()} for a, d in st.items()}
        return self.env.simulator.state

    def reset(self, init_state):
        self.inits.append(list(init_state))
        ok = self.resets(len(self.inits) - 1)
        if ok:
            self.fresh()
        else:
            self.env.simulator.state = {a: {b: {i: -7.5 for i in ids(self.cs, a)} for b in u} for a, u in QUANTITIES.items()}
        self.env.simulator.pfe_converged = ok
        return ok

    def transition(self, P_load, P_potential, P_set_points, Q_set_points):
        k = len(self.calls)
        self.calls.append([dict(x) for x in (P_load, P_potential, P_set_points, Q_set_points)])
        ok = self.converges(k)
        st = self.fresh()
        if self.res:
            r, e, p = self.res(k)
        else:
            e, p = self.S.real("%seloss%d" % (self.tag, k), -500, 500, np_=True), self.S.real("%spenalty%d" % (self.tag, k), 0, 5000, np_=True)
            r = -(e + p)
        self.results.append((e, p))
        self.env.simulator.pfe_converged = ok
        return st, r, e, p, ok


def standard(S, cs, K, st, aux):
    """The documented state vector."""
    out = []
    for key, unit in (("dev_p", "MW"), ("dev_q", "MVAr"), ("des_soc", "MWh"), ("gen_p_max", "MW")):
        out += [st[key][unit][i] for i in ids(cs, key)]
    return out + list(aux)


def same(S, a, b, tol=None):
    a, b = list(a), list(b)
    return S.And(*[S.eq(x, y, tol) for x, y in zip(a, b)]) if len(a) == len(b) and a else len(a) == len(b)


def act(S, env, tag="a", n=None):
    """Any action of the action space."""
    lo, hi = list(env.action_space.low), list(env.action_space.high)
    v = [S.real("%s_%d" % (tag, i), -1000, 1000, np_=True) for i in range(len(lo))]
    for x, a, b in zip(v, lo, hi):
        S.assume(S.And(S.le(a, x), S.le(x, b)))
    return v


def beside(S, observation="state", K=2, fails=0, converges=True):
    """Another environment of another network is made and used."""
    cs, seen = only_gens(25), []

    def init(e):
        seen.append(1)
        return S.np.array([0.5] * state_size(cs, K))

    env = build(S, cs, K, dt=0.5, gamma=0.5, lamb=3, observation=observation, aux_bounds=S.np.array([[-3.0, 3.0]] * K), costs=(2, 3), init=init, nxt=lambda e, s: S.np.array([0.25] * next_size(cs, K)))
    Standin(S, env, cs, keys=(), resets=lambda k: k >= fails, converges=lambda k: converges, results=lambda k: (-1.0, 0.75, 0.25))
    env.reset()
    lo, hi = list(env.action_space.low), list(env.action_space.high)
    env.step(S.np.array([(a + b) / 2 for a, b in zip(lo, hi)]))
    return env


def late(S, env):
    """Any moment of an episode."""
    k = S.__dict__.setdefault("_late", [0])
    env.timestep = S.int("timestep%d" % k[0], 0, 10 ** 6)
    k[0] += 1


def gapped(base=40):
    """Unordered and gapped identifiers, two devices of each type."""
    return Case([net.bus(7), net.bus(2, True), net.bus(5)],
                [net.branch(2, 5, 0.02, 0.06, 0.01, 60), net.branch(7, 5, 0.03, 0.08, 0.0, 60)],
                [net.storage(11, 7, 12, -13, 14, -15, smax=50), net.gen(4, 5, 2, 25, 0, 20, -21), net.load(9, 7, 0.3, 0, -40), net.slack(6, 2), net.load(1, 5, 0.1, 0, -30),
                 net.gen(12, 7, 1, 31, 1, 22, -23), net.storage(3, 2, 16, -17, 18, -19, smax=60), net.gen(2, 2, 2, 33, 0, 24, -26)], base)


def only_loads(base=100):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1)], [net.load(3, 1), net.slack(2, 0), net.load(1, 0, 0.1)], base)


def only_storage(base=100):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1)], [net.storage(3, 1, 10, -11), net.slack(2, 0), net.storage(1, 0, 12, -13, 14, -15)], base)


def only_gens(base=100):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1)], [net.gen(3, 1, 2, 20, 0, 10, -11), net.slack(0, 0), net.gen(1, 0, 1, 30, 2, 12, -13)], base)


NETS = [gapped, only_loads, only_storage, only_gens]
