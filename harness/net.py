"""Small networks for the simulator harnesses."""
N = None


def arr(S, rows):
    return S.np.array(rows)


def network(S, bus, branch, device, base=100):
    return {"baseMVA": base, "bus": arr(S, bus), "branch": arr(S, branch), "device": arr(S, device)}


def bus(i, slack=False, kv=50, vmax=None, vmin=None):
    return [i, 0 if slack else 1, kv, vmax if vmax is not None else (1.0 if slack else 1.1), vmin if vmin is not None else (1.0 if slack else 0.9)]


def branch(f, t, r=0.03, x=0.02, b=0.0, rate=100, tap=1, shift=0):
    return [f, t, r, x, b, rate, tap, shift]


def slack(i, b, pmax=200, pmin=-200, qmax=200, qmin=-200):
    return [i, b, 0, N, pmax, pmin, qmax, qmin] + [N] * 7


def load(i, b, qp=0.2, pmax=0, pmin=-10):
    return [i, b, -1, qp, pmax, pmin] + [N] * 9


def gen(i, b, typ=1, pmax=30, pmin=0, qmax=30, qmin=-30, pp=N, qp=N, qm=N):
    return [i, b, typ, N, pmax, pmin, qmax, qmin, pp, N, qp, qm, N, N, N]


def storage(i, b, pmax=50, pmin=-50, qmax=50, qmin=-50, pp=N, pm=N, qp=N, qm=N, smax=100, smin=0, eff=0.9):
    return [i, b, 3, N, pmax, pmin, qmax, qmin, pp, pm, qp, qm, smax, smin, eff]
