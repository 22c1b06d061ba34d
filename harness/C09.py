"""C09 Lines never create energy."""
from .lib import *
from .C07 import spec, build, volts, reference, before
import math

CASES, case = registry()
BOUNDS = "one branch with arbitrary resistance, reactance and charging in [0, 10], tap ratio in [1/10, 10] and phase shift in [0, 360] degrees (each also absent); all complex end voltages with components in [-2, 2]; also after an earlier arbitrary use of the branch and of another branch between the same buses"
STUBS = "cosine and sine of the symbolic phase shift are any point of the unit circle, the same for the code and the reference"
OUTSIDE = "rounding"


def run(S, f, vf, vt, ids=(0, 1), again=False):
    br = build(S, f, ids=ids)
    if again:
        before(S, br)
    br.compute_currents(vf, vt)
    br.compute_power_flows(vf, vt)
    return br


def body(S, again=False, **k):
    f = spec(S, **k)
    vf, vt = volts(S)
    br = run(S, f, vf, vt, again=again)
    total = br.p_from + br.p_to
    g = lambda c, d: f[c] if f[c] is not None else d
    r, x, a, th = g("r", 0.0), g("x", 0.0), g("tap", 1.0), g("shift", 0.0) * math.pi / 180
    # voltage across the series element, times the tap: vf - t vt, |t| = a
    t = S.cplx(a * S.cos(th), a * S.sin(th))
    d = vf - t * vt
    drop2 = d.real * d.real + d.imag * d.imag
    z2 = r * r + x * x
    S.check("the total active power is the loss of the series element", S.eq(total * z2 * a * a, r * drop2))
    if S.concrete:
        S.check("the total active power is never negative", S.le(0, total))
    else:
        # total = r |drop|^2 / (z2 a^2), proved above: a quotient of squares
        S.check("the total active power is never negative", S.And(S.le(0, r), S.le(0, drop2)))
    if k.get("zero_r"):
        S.check("a lossless line loses nothing", S.eq(total, 0.0))


def swap(S, **k):
    f = spec(S, tap=False, shift=False, **k)
    vf, vt = volts(S)
    a, b = run(S, f, vf, vt), run(S, f, vt, vf, (1, 0))
    S.check("describing a line from its other end swaps the ends", S.And(
        S.eq(a.p_from, b.p_to), S.eq(a.p_to, b.p_from), S.eq(a.q_from, b.q_to), S.eq(a.q_to, b.q_from)))
    S.check("and keeps the size of the apparent power", S.eq(S.abs(a.s_apparent_max), S.abs(b.s_apparent_max)))


case("full specification", time=100)(lambda S: body(S))
case("no transformer")(lambda S: body(S, tap=False, shift=False))
case("tap without shift")(lambda S: body(S, shift=False))
case("shift without tap")(lambda S: body(S, tap=False))
case("no charging")(lambda S: body(S, b=False))
case("lossless")(lambda S: body(S, zero_r=1))
case("lossless, resistance not given")(lambda S: body(S, zero_r=2))
case("no reactance")(lambda S: body(S, zero_x=1))
case("other end")(lambda S: swap(S))
case("other end, lossless")(lambda S: swap(S, zero_r=1))
case("used before", time=100)(lambda S: body(S, True))
