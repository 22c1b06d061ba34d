"""C27 Environment arguments are accepted exactly when valid."""
from .envs import *

CASES, case = registry()
BOUNDS = "any time step, discount and penalty factor in [-1000, 1000]; K of -2 to 3; observations of one or two entries over every quantity, unit and element of a network of 3 buses and 8 devices (unordered and gapped identifiers), and the malformed ones listed in the harness; auxiliary bounds of 0 to 4 rows"
STUBS = "none"
OUTSIDE = "arguments of other types than the documented ones (except for the observation); costs_clipping and seed; auxiliary bounds whose rows are not pairs in ascending order"
CONF = ("ANMEnvConfigurationError",)


def make(S, cs, K=1, **k):
    return S.call(build, S, cs, K, init=lambda e: None, nxt=lambda e, s: None, **k)


def judge(S, r, valid):
    """valid: condition of acceptance."""
    S.check("invalid arguments raise the configuration error", S.Or(valid, r.isa(*CONF)))
    S.check("valid arguments are accepted", S.Implies(valid, r.ok))


def numbers(S):
    K = S.choice("K", [-2, -1, 0, 1, 2])
    dt, g, lamb = S.real("dt", -1000, 1000), S.real("gamma", -1000, 1000), S.real("lamb", -1000, 1000)
    r = make(S, only_loads(), K, dt=dt, gamma=g, lamb=lamb)
    judge(S, r, S.And(K >= 0, S.gt(dt, 0, 0), S.ge(lamb, 0, 0), S.ge(g, 0, 0), S.le(g, 1, 0)))
    if r.ok:
        e = r.value
        S.check("the arguments are stored", S.And(e.K == K, S.eq(e.delta_t, dt), S.eq(e.gamma, g), S.eq(e.lamb, lamb)))


def auxb(S):
    K = S.choice("K", [0, 1, 2, 3])
    n = S.choice("rows", [None, 0, 1, 2, 3, 4])
    rows = []
    for k in range(n or 0):
        a, b = S.real("lo%d" % k, -100, 100), S.real("hi%d" % k, -100, 100)
        S.assume(S.le(a, b))
        rows.append([a, b])
    r = make(S, only_loads(), K, aux_bounds=None if n is None else (S.np.array(rows) if n else S.np.zeros((0, 2))))
    judge(S, r, n is None or n == K)


def entries(S, key):
    """One entry over a quantity."""
    cs, K = gapped(), 2
    units = QUANTITIES[key] if key in QUANTITIES else (None,)
    here = ids(cs, key) if key in QUANTITIES else list(range(K))
    others = sorted({0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 13, -1} - set(here)) if not key.startswith("branch") else [(5, 2), (2, 7), (7, 2), 2]
    w = S.choice("elements", ["all", "every", "one", "none", "unknown", "known and unknown", "not a list", "no", "text"])
    bad = S.choice("which", others) if "unknown" in w else None
    el = {"all": "all", "every": list(here), "one": here[-1:], "none": [], "unknown": [bad], "known and unknown": [here[0], bad], "not a list": here[0], "no": None, "text": "some"}[w]
    u = S.choice("unit", ["omitted"] + list(units) + ["bad unit", "" if "MW" in units else "MW"])
    r = make(S, cs, K, observation=[(key, el) + (() if u == "omitted" else (u,))])
    judge(S, r, (w in ("all", "every", "one", "none")) and (u == "omitted" or u in units))


def forms(S):
    cs = gapped()
    ok = [("bus_p", [2], "MW")]
    obs, valid = S.choice("observation", [
        ("state", True), (ok, True), ([list(ok[0])], True), (lambda s: s, True), (len, True), ([("bus_p", [2]), ("aux", [0]), ("dev_q", "all", "pu")], True),
        ("all", False), ("State", False), ("", False), (None, False), (3, False), (tuple(ok), False), ({"bus_p": [2]}, False),
        ([("bus_p",)], False), ([()], False), ([("bus_p", [2], "MW", 1)], False), (ok + [("bus_x", [2], "MW")], False), (ok + [("BUS_P", "all")], False), ([("dev", "all")], False), ([(None, "all")], False),
        (ok + [("des_soc", [4])], False), (ok + [("gen_p_max", [6])], False), (ok + [("gen_p_max", [9])], False), (ok + [("dev_p", [2, 5])], False), (ok + [("aux", [1])], False), (ok + [("aux", [0, 1])], False),
        (["bus_p"], False)])
    r = make(S, cs, 1, observation=obs)
    judge(S, r, valid)


def inputs_kept(S):
    """The observation argument is not altered."""
    obs = [("bus_p", "all"), ("aux", [0]), ("dev_q", [6, 1], "pu")]
    r = make(S, gapped(), 1, observation=obs)
    S.check("valid arguments are accepted", r.ok)
    S.check("the observation argument is not altered", obs == [("bus_p", "all"), ("aux", [0]), ("dev_q", [6, 1], "pu")])


case("numbers", time=100, max_paths=400)(numbers)
case("auxiliary bounds")(auxb)
for key in list(QUANTITIES) + ["aux"]:
    case("entry of " + key, max_paths=200, time=90)(lambda S, key=key: entries(S, key))
case("forms of observations")(forms)
case("arguments are kept")(inputs_kept)
