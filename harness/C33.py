"""C33 Rendering updates every n-th call with the current values."""
from .easy import *
import json

CASES, case = registry()
BOUNDS = "0 to 4 skipped frames, 12 render calls (with resets, steps and closing in between); arbitrary simulator results, costs and time steps; clipping limits symbolic in [0, 10000] or not given; convergence or collapse at every step"
STUBS = "the servers, the browser, the network and files are stand-ins that record what is sent; the transition of the simulator is a stand-in with the same signature which reports arbitrary results"
OUTSIDE = "undefined (NaN) values; the JavaScript client"
R = "gym_anm.envs.anm6_env.rendering.py.rendering"


class Wire(object):
    """Records the messages sent over the connections."""

    def __init__(self, S):
        self.S, self.sent, self.started, self.closed, self.page = S, [], 0, [], []
        wire = self

        class Process(object):
            def terminate(self):
                wire.closed.append(self)

        def server(addr):
            class Server(object):
                def __init__(self):
                    wire.started += 1
                    self.address, self.process = addr, Process()
            return Server

        class Conn(object):
            def __init__(self, address):
                self.address, self.open = address, True

            def send(self, m):
                assert self.open
                wire.sent.append((self.address, m))

            def close(self):
                self.open = False

        class File(object):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def write(self, x):
                wire.page.append(x)

            def close(self):
                pass

        conn = lambda address, *a, **k: Conn(address)
        S.patch(R, "WsServer", server("ws://127.0.0.1:9999/"))
        S.patch(R, "HttpServer", server("http://127.0.0.1:9998"))
        S.patch(R, "create_connection", conn)
        S.patch("websocket", "create_connection", conn)
        get = lambda *a, **k: type("Page", (object,), {"status_code": 200})()
        S.patch("requests", "get", get)
        S.patch("webbrowser", "open", lambda *a, **k: True)
        S.patch(R, "open", lambda *a, **k: File())
        import os

        fake = type("os", (object,), {"path": os.path, "makedirs": staticmethod(lambda *a, **k: None), "sep": os.sep})
        S.patch(R, "os", fake)

    def last(self):
        m = self.sent[-1][1]
        return m.doc if hasattr(m, "doc") else json.loads(m)


def doc(m):
    return m.doc if hasattr(m, "doc") else json.loads(m)


def update(S, env, cs, st, m, converged, eloss, penalty):
    S.check("updates are labelled", m["messageLabel"] == "update")
    d = env.date
    S.check("updates carry the current date", same(S, m["time"], [d.month, d.day, d.hour, d.minute]))
    S.check("updates carry the year count", S.eq(m["yearCount"], env.year_count))
    for name, key, unit in (("pInjections", "dev_p", "MW"), ("qInjections", "dev_q", "MVAr"), ("sFlows", "branch_s", "MVA"), ("socStorage", "des_soc", "MWh"), ("pPotential", "gen_p_max", "MW"), ("vMagn", "bus_v_magn", "pu")):
        S.check("updates carry the current " + key, same(S, m[name], [st[key][unit][i] for i in ids(cs, key)]))
    S.check("updates carry the current costs", same(S, m["reward"], [eloss, penalty]))
    S.check("updates carry the collapse flag", bool(m["networkCollapsed"]) == (not converged))


def initial(S, env, cs, m, name, limits):
    row = {d[0]: d for d in cs.devices}
    order = sorted(row)
    S.check("the first message is labelled", m["messageLabel"] == "init")
    S.check("the first message has the types of the devices", [int(x) for x in m["deviceType"]] == [row[i][2] for i in order])
    qmax = {}
    for i in order:
        d = row[i]
        if d[2] == -1:
            qmax[i] = max(abs(d[3] * d[4]), abs(d[3] * d[5]))
        else:
            qmax[i] = max(abs(d[6]), abs(d[7]))
    S.check("the first message has the active power limits", same(S, m["pMax"], [max(abs(row[i][4]), abs(row[i][5])) for i in order]))
    S.check("the first message has the reactive power limits", same(S, m["qMax"], [qmax[i] for i in order]))
    S.check("the first message has the branch rates", same(S, m["sRate"], [b[5] for b in cs.branches]))
    bus = {b[0]: b for b in cs.buses}
    S.check("the first message has the voltage limits", S.And(same(S, m["vMagnMin"], [bus[i][4] for i in sorted(bus)]), same(S, m["vMagnMax"], [bus[i][3] for i in sorted(bus)])))
    S.check("the first message has the storage capacities", same(S, m["socMax"], [row[i][12] for i in order if row[i][2] == 3]))
    S.check("the first message has the range of the costs", S.And(S.eq(m["energyLossMax"], limits[0]), S.eq(m["penaltyMax"], limits[1])))
    S.check("the first message has the title", m["title"] == name)


def env_of(S, which, costs):
    if which == "easy":
        return S.mod(EASY).ANM6Easy(), [1, 100], "ANM6Easy"
    d = {"init_state": lambda self: S.np.zeros(18), "next_vars": lambda self, s: S.np.zeros(6)}
    c = {"none": None, "default": None, "both": (S.real("c0", 0, 10000), S.real("c1", 0, 10000)), "loss only": (S.real("c0", 0, 10000), None), "penalty only": (None, S.real("c1", 0, 10000))}[costs]
    k = {} if costs == "default" else dict(costs_clipping=c)
    if costs == "none":
        k = dict(costs_clipping=(None, None))
    env = type("Six", (S.mod(ANM6).ANM6,), d)("state", 1, 0.5, 0.9, 100, **k)
    c = c or (None, None)
    return env, [100 if c[0] is None else c[0], 10000 if c[1] is None else c[1]], "Six"


def cadence(S, n):
    """Which calls send, with a constant number of skipped frames."""
    k = S.choice("skipped", [0, 1, 2, 3, 4])
    env, limits, name = env_of(S, "six", "none")
    cs = rows(S)
    sim = Standin(S, env, cs, keys=("dev_p",))
    w = Wire(S)
    env.reset(seed=1, options={"date_init": S.dt.datetime(2021, 3, 4)})
    again = S.choice("reset before call", [0, 2, 5])
    for i in range(1, n + 1):
        if i == again:
            env.reset(options={"date_init": S.dt.datetime(2022, 3, 4)})
        before = len(w.sent)
        env.render(skip_frames=k)
        new = [doc(m)["messageLabel"] for _, m in w.sent[before:]]
        want = (["init"] if i == 1 else []) + (["update"] if i % (k + 1) == 0 else [])
        S.check("the first call sends the limits and every (k+1)-th call sends an update", new == want)
        S.check("messages go to the websocket server", all(a == "ws://127.0.0.1:9999/" for a, _ in w.sent))
        env.step(S.np.zeros(6))
    S.check("the servers are started once", w.started == 2)


def payload(S, which, costs=None, steps=2):
    env, limits, name = env_of(S, which, costs)
    cs = rows(S)
    flags = {}
    sim = Standin(S, env, cs, converges=lambda k: flags.setdefault(k, bool(S.bool("converges%d" % k))))
    w = Wire(S)
    D = S.dt.datetime
    env.reset(options={"date_init": D(2021, 12, 31, 23, 50)}, seed=2)
    env.render()
    S.check("the first call sends the limits and the current values", len(w.sent) == 2)
    initial(S, env, cs, doc(w.sent[0][1]), name, limits)
    update(S, env, cs, sim.states[-1], doc(w.sent[1][1]), True, 0, 0)
    for t in range(steps):
        if env.terminated:
            break
        env.step(S.np.zeros(6))
        env.render()
        S.check("every call sends one update", len(w.sent) == 3 + t)
        conv = flags[t]
        update(S, env, cs, sim.states[-1], w.last(), conv, env.e_loss, env.penalty)
        if conv:
            e, p = sim.results[-1]
            c = limits if which == "easy" else [1e9, 1e9]
            if which == "easy":
                S.check("the displayed costs are the clipped ones", same(S, w.last()["reward"], [S.min(S.max(e, -c[0]), c[0]), S.min(p, c[1])]))


def closing(S):
    env, limits, name = env_of(S, "easy", None)
    cs = rows(S)
    sim = Standin(S, env, cs, keys=())
    w = Wire(S)
    env.reset(seed=1, options={"date_init": S.dt.datetime(2021, 3, 4)})
    before = S.bool("closed before")
    if before:
        S.check("closing without rendering does nothing", S.call(env.close).ok and not w.closed)
    env.render()
    n = len(w.sent)
    env.close()
    S.check("closing ends both servers", len(set(map(id, w.closed))) == 2)
    S.check("closing sends nothing", len(w.sent) == n)
    env.render()
    S.check("rendering can start again", w.started == 4 and [doc(m)["messageLabel"] for _, m in w.sent[n:]] == ["init", "update"])
    S.check("the page points to the websocket server", any("ws://127.0.0.1:9999/" in p for p in w.page))


def modes(S):
    env, limits, name = env_of(S, "easy", None)
    sim = Standin(S, env, rows(S), keys=())
    w = Wire(S)
    env.reset(seed=1, options={"date_init": S.dt.datetime(2021, 3, 4)})
    r = S.call(env.render, mode=S.choice("mode", ["ansi", "rgb_array", ""]))
    S.check("other modes are rejected", r.isa("NotImplementedError") and not w.sent and not w.started)
    S.check("rendering is off after a rejection", env.render_mode is None)


case("cadence")(lambda S: cadence(S, 8))
case("cadence, longer", tier="thorough", time=300)(lambda S: cadence(S, 20))
case("values, ANM6Easy")(lambda S: payload(S, "easy"))
for c in ("none", "default", "both", "loss only", "penalty only"):
    case("values, limits: " + c)(lambda S, c=c: payload(S, "six", c, 1))
case("closing")(closing)
case("other modes")(modes)
