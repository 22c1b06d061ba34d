"""C08 Directed apparent power has the right size and direction."""
from .lib import *
from .C07 import spec, build, volts, before

CASES, case = registry()
BOUNDS = "one branch with arbitrary resistance, reactance and charging in [0, 10], tap ratio in [1/10, 10] and phase shift in [0, 360] degrees (each also absent); all complex end voltages with components in [-2, 2]; also arbitrary end currents with components in [-100, 100]; also after an earlier arbitrary use of the branch and of another branch between the same buses"
STUBS = "cosine and sine of the symbolic phase shift are any point of the unit circle"
OUTSIDE = "rounding"


def claims(S, br, vf, vt):
    s = br.s_apparent_max
    a, b = vf * br.i_from.conjugate(), vt * br.i_to.conjugate()
    pf = a.real
    S.check("the size is that of the larger end", S.eq(S.abs(s), S.max(S.abs(a), S.abs(b))))
    S.check("positive when no active power leaves at the sending end", S.Implies(S.le(0, pf), S.le(0, s)), exact=False)
    S.check("negative when active power leaves at the sending end", S.Implies(S.lt(pf, 0), S.le(s, 0)))


def body(S, **k):
    f = spec(S, **k)
    br = build(S, f)
    vf, vt = volts(S)
    br.compute_currents(vf, vt)
    br.compute_power_flows(vf, vt)
    claims(S, br, vf, vt)


def conc(S, re_only=False, again=False, **f):
    """A branch with the given parameters, any voltages."""
    br = build(S, dict(dict(r=0.0, x=0.0, b=None, rate=None, tap=None, shift=None), **f))
    if again:
        before(S, br)
    vf, vt = volts(S)
    if re_only:
        vf = S.cplx(S.real("vf", 0, 2), 0.0)
    br.compute_currents(vf, vt)
    br.compute_power_flows(vf, vt)
    claims(S, br, vf, vt)


for n, f in (("resistive", dict(r=0.1)), ("lossless", dict(x=0.1)), ("plain", dict(r=0.1, x=0.2)), ("charging", dict(r=0.1, x=0.2, b=0.05))):
    case(n)(lambda S, f=f: conc(S, **f))
for n, f in (("heavy charging", dict(x=0.5, b=3.0)), ("tap", dict(r=0.1, x=0.2, b=0.05, tap=0.9)), ("tap and shift", dict(r=0.01, x=0.2, b=0.05, tap=1.1, shift=30)), ("reversing shift", dict(r=0.3, x=0.2, b=0.5, tap=1.5, shift=180))):
    case(n + ", real sending voltage")(lambda S, f=f: conc(S, True, **f))
    case(n, tier="thorough")(lambda S, f=f: conc(S, **f))
case("no transformer, no charging")(lambda S: body(S, tap=False, shift=False, b=False))
case("used before")(lambda S: conc(S, again=True, r=0.1, x=0.2, b=0.05))
