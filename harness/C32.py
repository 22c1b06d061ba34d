"""C32 The displayed calendar advances with the steps."""
from .easy import *

CASES, case = registry()
BOUNDS = "any time step in [1/100, 10000] h (and 1/4 h for ANM6Easy); histories of up to 4 steps and 3 resets of the environment or of its date; start dates drawn (any value of the generator) or given (any minute of 2019 to 2023); rendering on, off, and closed in between"
STUBS = "the transition of the simulator is a stand-in with the same signature which reports arbitrary results; the rendering servers are stand-ins"
OUTSIDE = "more than 80 years; microseconds"


def anm6(S, dt):
    """A 6-bus environment with any time step."""
    n = {"k": 0}
    d = {"init_state": lambda self: S.np.zeros(17), "next_vars": lambda self, s: S.np.zeros(5)}
    env = type("Six", (S.mod(ANM6).ANM6,), d)("state", 0, dt, 0.9, 100)
    return env


def secs(a, b):
    return (a - b).total_seconds()


def check_reset(S, env, given, t=0):
    D = S.dt.datetime
    if given is not None:
        S.check("a reset restores the given start date", S.eq(secs(env.date, given), t, 1e-3))
    else:
        S.check("a reset restores a start date within the year", S.And(secs(env.date, D(2020, 1, 1)) >= 0, secs(env.date, D(2021, 1, 1)) < 0))
    S.check("a reset clears the year count", env.year_count == 0)


def walk(S, env, length, plan, conv=None, easy=False):
    sim = Standin(S, env, rows(S), keys=(), converges=conv)
    act0 = S.np.zeros(6)
    start = None
    n = 0
    for k, w in enumerate(plan):
        if w in "rd":
            given = S.dt.datetime(2019, 1, 1) + S.dt.timedelta(minutes=S.int("start%d" % k, 0, 1800 * 1440)) if w == "d" else None
            mode = env.render_mode
            env.reset(**(dict(seed=7) if not n else {}), **(dict(options={"date_init": given}) if given is not None else {}))
            n += 1
            check_reset(S, env, given, env.state[-1] * 900 if easy else 0)
            S.check("a reset does not change whether rendering is on", env.render_mode == mode)
            start = env.date
        elif w == "t":
            start = S.dt.datetime(2019, 1, 1) + S.dt.timedelta(minutes=S.int("start%d" % k, 0, 1800 * 1440))
            env.reset_date(start)
            S.check("resetting the date restores the given date", S.eq(secs(env.date, start), 0, 1e-3))
            S.check("resetting the date clears the year count", env.year_count == 0)
        else:
            before = env.date
            env.step(act0)
            S.check("the date advances by one time step", S.eq(secs(env.date, before), length, 1e-3))
            S.check("the year count is the number of full years since the start", S.eq(env.year_count, S.floor(secs(env.date, start) / (365 * 86400.0)) if S.symbolic else (env.date - start).days // 365))


def six(S, plan, conv=None):
    dt = S.real("dt", 0.01, 10000)
    S.prefer(S.eq(dt, 1 / 7.0))
    walk(S, anm6(S, dt), dt * 3600, plan, conv)


def quarter(S, plan, conv=None):
    walk(S, S.mod(EASY).ANM6Easy(), 900, plan, conv, True)


def rendering(S, base, n=3):
    """Rendering stays on or off across resets."""
    env = S.mod(EASY).ANM6Easy() if base == "easy" else anm6(S, 0.25)
    Standin(S, env, rows(S), keys=())
    sent = []
    R = "gym_anm.envs.anm6_env.rendering.py.rendering"
    srv = type("Server", (object,), {"address": "ws://x/", "process": None})
    S.patch(R, "start", lambda *a, **k: (srv(), srv()))
    S.patch(R, "update", lambda *a, **k: sent.append(1))
    S.patch(R, "close", lambda *a, **k: None)
    env.reset(seed=1)
    on = False
    for k in range(n):
        w = S.choice("event%d" % k, ["reset", "render", "close", "step"])
        if w == "reset":
            env.reset()
        elif w == "render":
            env.render()
            on = True
        elif w == "close":
            env.close()
            on = False
        else:
            env.step(S.np.zeros(6))
        S.check("rendering is on exactly from the first render call to a close", (env.render_mode is not None) == on)
    n = len(sent)
    env.render()
    S.check("rendering goes on", len(sent) == n + 1)


coll = lambda S: (lambda k: bool(S.bool("converges%d" % k)))
case("any time step")(lambda S: six(S, "rssrs"))
case("any time step, given dates", time=100)(lambda S: six(S, "dssdrs"))
case("any time step, collapses")(lambda S: six(S, "rsssrs", coll(S)))
case("any time step, dates reset in between")(lambda S: six(S, "rstss"))
case("ANM6Easy")(lambda S: quarter(S, "rssrs"))
case("ANM6Easy, given dates")(lambda S: quarter(S, "dssrd"))
case("rendering")(lambda S: rendering(S, "easy"))
case("rendering, longer", tier="thorough", time=600, max_paths=3000)(lambda S: rendering(S, "six", 5))
