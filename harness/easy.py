"""The ANM6Easy task: documented profile and network."""
from .envs import *

NET6 = "gym_anm.envs.anm6_env.network"
LOADS, GENS, DES, N_DEV = (1, 3, 5), (2, 4), (6,), 7
# scenario values: night, morning/evening, afternoon
LEVELS = {1: (-1, -5, -2), 3: (-4, -10, -20), 5: (0, -25, 0), 2: (0, 4, 30), 4: (40, 11, 40)}
# quarter-hours where each level starts and ends: 23:00-06:00, 08:00-11:00, 13:00-16:00, 18:00-21:00
KNOTS = ((0, 24, 0), (32, 44, 1), (52, 64, 2), (72, 84, 1), (92, 95, 0))


def profile(S, dev, j):
    """Documented value of a device at quarter-hour j: constant scenarios, linear in between."""
    lv = LEVELS[dev]
    out = lv[0]
    for (a0, a1, la), (b0, b1, lb) in reversed(list(zip(KNOTS, KNOTS[1:]))):
        x = lv[la] + (lv[lb] - lv[la]) * (j - a1) / 8.0
        out = S.ite(j <= a1, lv[la], S.ite(j < b0, x, out if b0 != 92 else lv[0]))
    return out


def typo(S, dev, j):
    """The values the code has between 11:00 and 13:00 and between 16:00 and 18:00 (F30)."""
    lo, hi = {2: (7.25, 36.75), 4: (14.725, 36.375)}[dev]
    k = S.ite(j <= 52, j - 45, 71 - j)
    return lo + (hi - lo) / 6 * k


def rows(S):
    n = S.mod(NET6).network
    return Case([list(r) for r in n["bus"]], [list(r) for r in n["branch"]], [list(r) for r in n["device"]], n["baseMVA"])


# the network as documented
LIMITS = {1: (-10, 0), 3: (-30, 0), 5: (-30, 0), 2: (0, 30), 4: (0, 50)}


def near(S, a, b):
    return S.And(S.le(a - b, 1e-6), S.le(b - a, 1e-6))


def agree(S, name, dev, x, j):
    kn = [("F30", S.And(S.Or(S.And(j >= 45, j <= 51), S.And(j >= 65, j <= 71)), near(S, x, typo(S, dev, j))))] if dev in (2, 4) else []
    S.check(name, S.eq(x, profile(S, dev, j), 1e-6), known=kn)
