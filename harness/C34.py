"""C34 The rendering relay delivers to every viewer."""
from .lib import *
import json

CASES, case = registry()
BOUNDS = "every order of up to 5 events (up to 4 after an initial message) among up to 4 clients: connect, initial message, update, other message, leave (also of unknown clients and twice); arbitrary contents and any spelling of the messages"
STUBS = "the websocket server library calls the registered functions in the order of the events, with the dictionaries of the clients (the stand-in follows its documentation: the list of clients holds a client from before new_client to after client_left); processes and sockets are stand-ins"
OUTSIDE = "messages that are not JSON objects with a label; longer histories; events in parallel (the library handles each client in its own thread)"
SRV = "gym_anm.envs.anm6_env.rendering.py.servers"


class Hub(object):
    """The websocket server library."""
    current = None

    def __init__(self, *a, **k):
        self.clients, self.fns, self.out = [], {}, []
        Hub.current = self

    def set_fn_new_client(self, f):
        self.fns["new"] = f

    def set_fn_client_left(self, f):
        self.fns["left"] = f

    def set_fn_message_received(self, f):
        self.fns["msg"] = f

    def send_message(self, client, m):
        self.out.append((client["id"], m))

    def send_message_to_all(self, m):
        for c in list(self.clients):
            self.send_message(c, m)

    def run_forever(self, *a, **k):
        pass


def server(S):
    """A relay with its functions registered, without processes and sockets."""
    target = []

    class Process(object):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.t = (target, args, kwargs or {})

        def start(self):
            target.append(self.t)

        def terminate(self):
            pass

    class Sock(object):
        def __init__(self, *a, **k):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def connect_ex(self, a):
            return S.choice("port in use", [1, 0])

        def bind(self, a):
            pass

        def close(self):
            pass

        def getsockname(self):
            return ("0.0.0.0", 45678)

    class File(object):
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def write(self, x):
            pass

    S.patch(SRV, "Process", Process)
    S.patch("multiprocessing", "Process", Process)
    S.patch(SRV, "socket", type("socket", (object,), {"socket": Sock, "AF_INET": 2, "SOCK_STREAM": 1}))
    S.patch(SRV, "WebsocketServer", Hub)
    S.patch("websocket_server", "WebsocketServer", Hub)
    S.patch(SRV, "open", lambda *a, **k: File())
    Hub.current = None
    srv = S.mod(SRV).WsServer()
    S.check("the server is started", len(target) == 1)
    t, a, k = target[0]
    t(*a, **k)
    return srv, Hub.current


def text(S, label, k):
    x = S.real("payload%d" % k, -1000, 1000)
    d = {"messageLabel": label, "x": x, "k": k}
    return S.mod("json").dumps(d) if S.symbolic else json.dumps(d, separators=(" ,", " :  "))    # (not the way it would be written again)


def events(S, n, first=()):
    srv, hub = server(S)
    S.check("the address is the one of the port in use", srv.address == "ws://127.0.0.1:%d/" % srv.PORT and srv.HOST == "127.0.0.1")
    S.check("every event has its function", sorted(hub.fns) == ["left", "msg", "new"])
    here, nid = [], 0
    init, initc = None, None
    for k in range(n + len(first)):
        opts = ["connect"]
        for c in range(len(here)):
            opts += [("init", c), ("update", c), ("other", c), ("leave", c)]
        opts += ["unknown leaves"]
        e = first[k] if k < len(first) else S.choice("event%d" % k, opts)
        hub.out = []
        want = []
        if e == "connect":
            if nid == 4:
                S.stop()
            nid += 1
            c = {"id": nid, "handler": object(), "address": ("127.0.0.1", 1000 + nid)}
            here.append(c)
            hub.clients.append(c)
            hub.fns["new"](c, hub)
            if init is not None:
                want = [(nid, init)]
            what = "a viewer that connects receives exactly the initial message"
        elif e == "unknown leaves":
            hub.fns["left"]({"id": 99, "handler": None, "address": None}, hub)
            what = "clients that leave do not affect others"
        elif e[0] == "leave":
            c = here.pop(e[1])
            hub.fns["left"](c, hub)
            hub.clients.remove(c)
            what = "clients that leave do not affect others"
        else:
            m = text(S, {"init": "init", "update": "update", "other": "hello"}[e[0]], k)
            hub.fns["msg"](here[e[1]], hub, m)
            if e[0] == "init":
                init, initc = m, here[e[1]]["id"]
                what = "the initial message is not sent back"
            elif e[0] == "update":
                want = [(c["id"], m) for c in here]
                what = "updates are forwarded unmodified to every connected client"
            else:
                what = "other messages are not forwarded"
        S.check(what, [(i, id(m)) for i, m in hub.out] == [(i, id(m)) for i, m in want] or [(i, m) for i, m in hub.out] == [(i, m) for i, m in want] and not S.symbolic)
        S.check("the relay knows exactly the connected clients", sorted(srv.clients) == sorted(c["id"] for c in here) and all(srv.clients[c["id"]] is c for c in here))


def reconnect(S):
    """The client that sent the initial message connects again under the same identifier."""
    srv, hub = server(S)
    c = {"id": 1, "handler": object(), "address": None}
    hub.clients.append(c)
    hub.fns["new"](c, hub)
    m = text(S, "init", 0)
    hub.fns["msg"](c, hub, m)
    hub.fns["new"](c, hub)
    S.check("the sender of the initial message is not sent it", not hub.out)
    d = {"id": 2, "handler": object(), "address": None}
    hub.clients.append(d)
    hub.fns["new"](d, hub)
    S.check("other viewers are", len(hub.out) == 1 and hub.out[0][0] == 2)


def rejects(S):
    """Nothing is lost when a message without a known label arrives."""
    srv, hub = server(S)
    c = {"id": 1, "handler": object(), "address": None}
    hub.clients.append(c)
    hub.fns["new"](c, hub)
    hub.fns["msg"](c, hub, text(S, "init", 0))
    S.call(hub.fns["msg"], c, hub, text(S, S.choice("label", ["", "INIT", "Update", "init ", "reset"]), 1))
    d = {"id": 2, "handler": object(), "address": None}
    hub.clients.append(d)
    hub.fns["new"](d, hub)
    S.check("unknown messages change nothing", len(hub.out) == 1 and hub.out[0][0] == 2)


case("any 4 events", max_paths=3000, time=120)(lambda S: events(S, 4))
case("any 3 events after an initial message", max_paths=4000, time=120)(lambda S: events(S, 3, ("connect", ("init", 0), ("leave", 0))))
case("any 3 events after an initial message, its sender stays", max_paths=4000, time=120)(lambda S: events(S, 3, ("connect", ("init", 0), "connect")))
case("any 5 events", tier="thorough", max_paths=60000, time=800)(lambda S: events(S, 5))
case("same identifier")(reconnect)
case("unknown labels")(rejects)
