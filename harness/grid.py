"""Simulator transitions of small networks with arbitrary load-flow iterates, and reference formulas."""
import math
from .lib import *
from . import net


class Case(object):
    """A network description: rows per identifier, so that order and naming can vary."""

    def __init__(self, buses, branches, devices, base=100):
        self.buses, self.branches, self.devices, self.base = buses, branches, devices, base


def sim_of(S, cs, dt=0.25, lamb=100):
    return S.mod(SIM).Simulator(net.network(S, cs.buses, cs.branches, cs.devices, cs.base), dt, lamb)


def iterate(S, n, tag="x", ang=3, mag=2, k=0):
    """An arbitrary result of the linear solver."""
    return [S.real("%s%d_%d" % (tag, k, i), -ang if i < n // 2 else -mag, ang if i < n // 2 else mag) for i in range(n)]


def one_iterate(S, force=False, tag="x", **k):
    S.linear([lambda n: iterate(S, n, tag, **k)], force)


def pi(S, br):
    """Series and shunt admittance and complex tap of a branch row (documented pi-model)."""
    _, _, r, x, b, _, tap, sh = br
    r, x, b, tap, sh = r or 0.0, x or 0.0, b if b is not None else 0.0, tap if tap is not None else 1.0, sh if sh is not None else 0.0
    z2 = r * r + x * x
    y = S.cplx(r / z2, -x / z2)
    th = sh * math.pi / 180
    t = S.cplx(tap * S.cos(th), tap * S.sin(th)) if not (isinstance(sh, (int, float)) and sh == 0) else S.cplx(tap * 1.0, 0.0)
    return y, S.cplx(0.0, b / 2), t


def currents(S, br, vf, vt):
    y, sh, t = pi(S, br)
    t2 = t.real * t.real + t.imag * t.imag
    w = vf / t                      # voltage behind the ideal transformer
    i1 = y * (w - vt) + sh * w      # current on the line side
    return i1 / t.conjugate(), y * (vt - w) + sh * vt


def flows(S, br, vf, vt):
    i, j = currents(S, br, vf, vt)
    return vf * i.conjugate(), vt * j.conjugate()


def injected(S, cs, v):
    """Power leaving each bus through its branches."""
    out = {b[0]: S.cplx(0.0, 0.0) for b in cs.buses}
    for br in cs.branches:
        a, b = flows(S, br, v[br[0]], v[br[1]])
        out[br[0]] = out[br[0]] + a
        out[br[1]] = out[br[1]] + b
    return out


def ready(S, cs, before=False, **k):
    """A simulator whose storage units have any content within their limits (before: after any earlier transition, beside simulators of another network)."""
    others = [other(S, cs)] if before else []
    sim = sim_of(S, cs, **k)
    if before:
        for x, scale in zip([others[0], other(S, cs)], (1, -2)):
            one = lambda types, v: {d[0]: scale * v for d in cs.devices if d[2] in types}
            S.linear([])
            x.transition(one((-1,), -3.0), one((1, 2), 7.0), one((1, 2, 3), 2.0), one((1, 2, 3), 1.0))
        charge(S, cs, sim, "soc_")
        earlier(S, cs, sim)
    charge(S, cs, sim, "soc")
    return sim


def other(S, cs):
    """A simulator of a network with the same names but other parameters."""
    buses = [[b[0], b[1], 33, 1.25, 0.75] for b in cs.buses]
    branches = [[b[0], b[1], 0.25, 0.5, 0.125, 15, 1.5, 0] for b in cs.branches]
    rows = {-1: lambda i, b: net.load(i, b, 0.5, 0, -20), 0: net.slack, 1: lambda i, b: net.gen(i, b, 1, 11, 1, 9, -8), 2: lambda i, b: net.gen(i, b, 2, 12, 2, 7, -6), 3: lambda i, b: net.storage(i, b, 13, -14, 3, -4, smax=21, smin=4, eff=0.5)}
    sim = sim_of(S, Case(buses, branches, [rows[d[2]](d[0], d[1]) for d in cs.devices], 25), 0.5, 3)
    for d in cs.devices:
        if d[2] == 3:
            sim.devices[d[0]].soc = 0.5
    return sim


def charge(S, cs, sim, name):
    for d in [r[0] for r in cs.devices if r[2] == 3]:
        dev = sim.devices[d]
        lo, hi = dev.soc_min, dev.soc_max
        if isinstance(lo, (int, float)) and isinstance(hi, (int, float)):
            dev.soc = S.real("%s%d" % (name, d), lo, hi, np_=True)
        else:
            x = S.real("%s%d" % (name, d), 0, 1000, np_=True)
            S.assume(S.And(S.ge(x, lo), S.le(x, hi)))
            dev.soc = x


def earlier(S, cs, sim, lim=100):
    """Any transition with the flat voltages."""
    one = lambda w, types: {d[0]: S.real("%s_%d" % (w, d[0]), -lim, lim) for d in cs.devices if d[2] in types}
    S.linear([])
    sim.transition(one("load", (-1,)), one("pot", (1, 2)), one("setp", (1, 2, 3)), one("setq", (1, 2, 3)))


def volts(S, sim):
    return {i: b.v for i, b in sim.buses.items()}


def load_inputs(S, cs, lim=50):
    return {d[0]: S.real("load%d" % d[0], -lim, lim) for d in cs.devices if d[2] == -1}


def gen_inputs(S, cs, lim=50):
    pot = {d[0]: S.real("pot%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2)}
    ps = {d[0]: S.real("setp%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2, 3)}
    qs = {d[0]: S.real("setq%d" % d[0], -lim, lim) for d in cs.devices if d[2] in (1, 2, 3)}
    return pot, ps, qs


def transition(S, sim, cs, lim=50):
    loads = load_inputs(S, cs, lim)
    pot, ps, qs = gen_inputs(S, cs, lim)
    # small injections converge: try those first when looking for a counterexample
    out = sim.transition(loads, pot, ps, qs)
    for d, dev in sim.devices.items():
        if d in ps:
            S.alt(S.And(S.eq(dev.p, ps[d] / cs.base), S.eq(dev.q, qs[d] / cs.base)))
    return out


N = None


def two(base=100, **k):
    return Case([net.bus(0, True), net.bus(1)], [net.branch(0, 1, **k)], [net.slack(0, 0), net.load(1, 1, 0.2)], base)


def tx(base=50):
    """Slack not first, gaps in the numbering, a transformer with phase shift, slack above 1 p.u."""
    return Case([net.bus(4), net.bus(7, True, vmax=1.04), net.bus(2)],
                [net.branch(7, 4, 0.02, 0.1, 0.04, 50, 0.95, 30), net.branch(2, 4, 0.03, 0.05, 0.02, 40)],
                [net.load(9, 4, 0.3), net.slack(1, 7), net.load(3, 2, -0.2), net.load(5, 7, 0.1)], base)


def mesh(base=100):
    return Case([net.bus(0, True), net.bus(1), net.bus(2)],
                [net.branch(0, 1, 0.02, 0.06, 0.01, 60), net.branch(1, 2, 0.03, 0.08, 0.0, 60, 1.05), net.branch(2, 0, 0.01, 0.05, 0.02, 60)],
                [net.slack(0, 0), net.load(1, 1, 0.2), net.load(2, 2, 0.4)], base)


def mixed(base=100, pp=None):
    """Every type of device, several per bus, devices on the slack bus."""
    return Case([net.bus(0, True), net.bus(1), net.bus(3)],
                [net.branch(0, 1, 0.02, 0.06, 0.01, 60), net.branch(3, 1, 0.03, 0.08, 0.0, 60, 1.05, 0)],
                [net.slack(0, 0), net.load(1, 1, 0.2), net.gen(2, 1, 1), net.gen(4, 3, 2), net.storage(6, 3), net.load(7, 0, 0.1), net.gen(8, 0, 2)], base)


def small(base=40):
    return Case([net.bus(1), net.bus(2, True)], [net.branch(1, 2, 0.02, 0.06, 0.01, 60)], [net.load(5, 1, 0.2), net.storage(3, 1), net.gen(4, 2, 2), net.slack(2, 2)], base)


def polar(S, state, cs):
    return {b[0]: (state["bus_v_ang"]["rad"][b[0]], state["bus_v_magn"]["pu"][b[0]]) for b in cs.buses}


def layout(S, cs):
    """Where the steps of each bus are in the solutions of the linear systems: {bus: ((position, sign) of the angle, of the magnitude)}, or None."""
    flat = {b[0]: (0.0, 1.0 if b[1] else b[3]) for b in cs.buses}
    n = 2 * (len(cs.buses) - 1)
    tries = []
    for scale in (1 / 64.0, -1 / 128.0):
        sim = sim_of(S, cs)
        S.linear([lambda m: [scale * (i + 1) for i in range(m)]], force=True)
        loads, pot, ps, qs = [{d[0]: v for d in cs.devices if d[2] in k} for k, v in (((-1,), -1.0), ((1, 2), 0.0), ((1, 2, 3), 0.0), ((1, 2, 3), 0.0))]
        z, found = polar(S, sim.transition(loads, pot, ps, qs)[0], cs), {}
        for b in cs.buses:
            if b[1]:
                hits = [[(i, sg) for i in range(n) for sg in (1, -1) if abs(z[b[0]][k] - flat[b[0]][k] - sg * scale * (i + 1)) < 1e-9] for k in (0, 1)]
                found[b[0]] = tuple(h[0] if len(h) == 1 else None for h in hits)
        tries.append(found)
    if tries[0] != tries[1] or any(x is None for f in tries[0].values() for x in f):
        return flat, None
    return flat, tries[0]
