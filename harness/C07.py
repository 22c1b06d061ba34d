"""C07 Branch currents and flows follow the pi-model with transformer."""
from .lib import *
import math

CASES, case = registry()
BOUNDS = "one branch with arbitrary resistance, reactance and charging in [0, 10], tap ratio in [1/10, 10] and phase shift in [0, 360] degrees (each also absent); all complex end voltages with components in [-2, 2]; also after an earlier arbitrary use of the branch and of another branch between the same buses"
STUBS = "cosine and sine of the symbolic phase shift are any point of the unit circle, the same for the code and the reference"
OUTSIDE = "rounding"
N = None


def spec(S, zero_r=0, zero_x=0, rate=True, tap=True, shift=True, b=True):
    f = {}
    f["r"] = N if zero_r == 2 else 0 if zero_r else S.real("r", 0, 10)
    f["x"] = N if zero_x == 2 else 0 if zero_x else S.real("x", 0, 10)
    f["b"] = S.real("b", 0, 10) if b else N
    f["rate"] = S.real("rate", 0, 1000) if rate else N
    f["tap"] = S.real("tap", 0.1, 10) if tap else N
    f["shift"] = S.real("shift", 0, 360) if shift else N
    S.assume(S.Or(*[S.gt(f[k] if f[k] is not None else 0, 0) for k in ("r", "x")]))
    return f


def build(S, f, base=100, ids=(0, 1)):
    return S.mod(BRANCH).TransmissionLine(S.np.array([ids[0], ids[1], f["r"], f["x"], f["b"], f["rate"], f["tap"], f["shift"]]), base, list(ids))


def volts(S, lo=-2, hi=2):
    v = [S.real(n, lo, hi) for n in ("vf_re", "vf_im", "vt_re", "vt_im")]
    return S.cplx(v[0], v[1]), S.cplx(v[2], v[3])


def reference(S, f, vf, vt):
    """Ideal transformer of complex ratio t at the sending end of a pi-circuit: z*i_f, z*i_t (z the series impedance)."""
    g = lambda k, d: f[k] if f[k] is not None else d
    z = S.cplx(g("r", 0.0), g("x", 0.0))
    half = S.cplx(0.0, g("b", 0.0) / 2)
    th = g("shift", 0.0) * math.pi / 180
    a = g("tap", 1.0)
    t = S.cplx(a * S.cos(th), a * S.sin(th))
    tc = t.conjugate() if hasattr(t, "conjugate") else t
    # at the secondary of the transformer: voltage vf/t; its current is conj(t) times the primary one
    zs_if = (vf / t - vt) + z * half * (vf / t)
    zs_it = (vt - vf / t) + z * half * vt
    return z, tc, zs_if, zs_it


def before(S, br):
    """The branch at other voltages, and another branch."""
    another = build(S, dict(r=0.25, x=0.5, b=0.125, rate=10, tap=1.5, shift=60), 25)
    v = [S.real(n, -2, 2) for n in ("of_re", "of_im", "ot_re", "ot_im")]
    br.compute_currents(S.cplx(v[0], v[1]), S.cplx(v[2], v[3]))
    br.compute_power_flows(S.cplx(v[0], v[1]), S.cplx(v[2], v[3]))
    another.compute_currents(S.cplx(1.0, 0.0), S.cplx(0.75, 0.25))
    another.compute_power_flows(S.cplx(1.0, 0.0), S.cplx(0.75, 0.25))


def body(S, again=False, **k):
    f = spec(S, **k)
    S.prefer(S.eq(f["tap"], 1.05) if f["tap"] is not None else S.le(0, 1), S.eq(f["r"], 0.5) if f["r"] is not None and not k.get("zero_r") else S.le(0, 1))
    br = build(S, f)
    if again:
        before(S, br)
    vf, vt = volts(S)
    br.compute_currents(vf, vt)
    br.compute_power_flows(vf, vt)
    z, tc, zif, zit = reference(S, f, vf, vt)
    ceq = lambda a, b: S.And(S.eq(a.real, b.real), S.eq(a.imag, b.imag))
    S.check("the sending-end current is that of the circuit", ceq(br.i_from * tc * z, zif))
    S.check("the receiving-end current is that of the circuit", ceq(br.i_to * z, zit))
    S.check("the sending-end flow is voltage times conjugate current", ceq(S.cplx(br.p_from, br.q_from), vf * br.i_from.conjugate()))
    S.check("the receiving-end flow is voltage times conjugate current", ceq(S.cplx(br.p_to, br.q_to), vt * br.i_to.conjugate()))


case("full specification", time=120)(lambda S: body(S))
case("no transformer")(lambda S: body(S, tap=False, shift=False))
case("tap without shift")(lambda S: body(S, shift=False))
case("shift without tap")(lambda S: body(S, tap=False))
case("no charging given")(lambda S: body(S, b=False, rate=False))
for i in (1, 2):
    case("lossless%s" % ("" if i == 1 else ", resistance not given"))(lambda S, i=i: body(S, zero_r=i))
    case("no reactance%s" % ("" if i == 1 else " given"))(lambda S, i=i: body(S, zero_x=i))
case("used before", time=120)(lambda S: body(S, True))
