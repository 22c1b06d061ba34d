"""Runs harness cases on the real package: a server that forks one child per request."""
import importlib, io, json, os, signal, socket, struct, sys, traceback, warnings

REPO = os.environ.get("VP_REPO", "/repo")


def recv(s):
    h = b""
    while len(h) < 4:
        d = s.recv(4 - len(h))
        if not d:
            return None
        h += d
    n = struct.unpack("<I", h)[0]
    b = b""
    while len(b) < n:
        d = s.recv(min(65536, n - len(b)))
        if not d:
            return None
        b += d
    return json.loads(b)


def send(s, o):
    b = json.dumps(o, default=str).encode()
    s.sendall(struct.pack("<I", len(b)) + b)


def preload():
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")
    import numpy, scipy.sparse.linalg, gymnasium, cvxpy
    import gym_anm, gym_anm.agents, gym_anm.envs.anm6_env.rendering.py.rendering, gym_anm.envs.anm6_env.rendering.py.servers

    gymnasium.logger.min_level = 50
    # the solver used by Problem.solve() by default must be accurate enough for comparisons
    real = cvxpy.Problem.solve

    def solve(self, *a, **k):
        if not a and "solver" not in k:
            if self.objective.expr.is_quadratic() and not self.objective.expr.is_affine() and self.is_qp():
                k = dict(dict(solver=cvxpy.OSQP, eps_abs=1e-9, eps_rel=1e-9, max_iter=100000, polish=True), **k)
            else:
                k["solver"] = cvxpy.CLARABEL
        return real(self, *a, **k)

    cvxpy.Problem.solve = solve


def load_case(pid, case):
    m = importlib.import_module("harness." + pid)
    return m.CASES[case]


def run(req, pid):
    from . import conc

    case = load_case(pid, req["case"])
    S = conc.ConcSession(req["inputs"], req["choices"], req.get("script"), req.get("known", ()))
    S.rng_real = bool(case["opts"].get("rng_real"))
    S.cp_points = req.get("cp", [])
    import numpy as np

    np.seterr(all="ignore")
    S.install(bool(req.get("use_lin")))
    status, err = "ok", ""
    try:
        case["fn"](S)
    except conc.AssumeFailed:
        status = "assume"
    except conc.Stop:
        pass
    except Exception as e:
        status, err = "exception", "%s: %s [%s]" % (type(e).__name__, e, "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:]))
    return dict(status=status, error=err, results=S.results, log=S.log)


def serve(path, pid):
    preload()
    importlib.import_module("harness." + pid)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path)
    srv.listen(64)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    print("ready", flush=True)
    while True:
        c, _ = srv.accept()
        pid_ = os.fork()
        if pid_:
            c.close()
            continue
        srv.close()
        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
        try:
            req = recv(c)
            if req is None:
                os._exit(0)
            signal.alarm(int(req.get("timeout", 60)))
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            try:
                out = run(req, pid)
            except BaseException as e:
                out = dict(status="error", error="".join(traceback.format_exception(e))[-600:], results=[])
            send(c, out)
        finally:
            os._exit(0)


class Client(object):
    def __init__(self, path):
        self.path = path

    def __call__(self, req):
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(90)
        try:
            s.connect(self.path)
            send(s, req)
            out = recv(s)
            if out is None:
                return dict(status="timeout", error="the replay was killed (time or crash)", results=[])
            return out
        except (OSError, socket.timeout) as e:
            return dict(status="error", error=repr(e), results=[])
        finally:
            s.close()


if __name__ == "__main__":
    serve(sys.argv[1], sys.argv[2])
