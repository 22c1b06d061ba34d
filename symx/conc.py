"""Concrete mode: the same harness run on the real package with the values of a solver model."""
import importlib, math, sys, random
import numpy as np
from . import claims
from .claims import Node, Rel, Raw, And, Or, Not, node, rel, ctruth

TOL = 1e-6


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    """The harness ended this run early."""


class Outcome(object):
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def kind(self):
        return None if self.exc is None else type(self.exc).__name__

    def isa(self, *names):
        return self.exc is not None and any(c.__name__ in names for c in type(self.exc).__mro__)


HIDDEN = ("np.random.default_rng", "env-unseeded", "unseeded")


class ScriptedRNG(object):
    """Random generator returning the values of the model; other draws come from a seeded generator."""

    def __init__(self, sess, stream):
        self.s, self.stream, self.k = sess, stream, 0
        n = 0
        if stream in HIDDEN:
            n = sess.hidden["generators"] = sess.hidden.get("generators", 0) + 1
        self.fallback = np.random.Generator(np.random.PCG64(sum(map(ord, stream)) + 7919 * n))

    def _next(self, n, real):
        if self.stream in HIDDEN:
            # unseeded generators share one stream
            self.k = self.s.hidden.get(self.stream, 0)
            self.s.hidden[self.stream] = self.k + 1
        ent = self.s.script.get("%s#%d" % (self.stream, self.k))
        self.k += 1
        if ent is None or ent["method"] != n:
            return real()
        v = ent["values"]
        sh = ent.get("shape")
        ints = ent.get("int")
        conv = (lambda x: np.int64(round(x))) if ints else float
        if sh is None:
            return conv(v[0])
        return np.array([conv(x) for x in v]).reshape(sh)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        f = getattr(self.fallback, n, None)

        def g(*a, **k):
            if n == "choice":
                seq = a[0]
                i = self._next("choice", lambda: None)
                if i is None:
                    return f(*a, **k)
                pool = np.arange(seq) if isinstance(seq, (int, np.integer)) else np.asarray(seq)
                return pool[np.asarray(i, dtype=int)] if isinstance(i, np.ndarray) else pool[int(i)]
            return self._next(n, lambda: f(*a, **k))

        return g


class ConcSession(object):
    mode = "conc"
    concrete = True
    symbolic = False

    def __init__(self, inputs, choices, script=None, known=()):
        self.inputs, self.choices, self.script = inputs, choices, script or {}
        self.results = []
        self.known_ids = set(known)
        self.opts = {}
        self.rng_real = False
        self.np = np
        import datetime, math as m

        self.dt, self.math = datetime, m
        self.log = []
        self.hidden = {}
        self.lin_calls = []
        self.lin_script = None
        self.use_lin = False

    # -- inputs
    def real(self, name, lo=-1000, hi=1000, np_=False):
        v = self.inputs.get(name)
        if v is None:
            v = (lo + hi) / 2.0 if not (lo <= 0 <= hi) else 0.0
        v = float(v)
        if not lo - 1e-9 <= v <= hi + 1e-9:
            raise AssumeFailed()
        return np.float64(v) if np_ else v

    def once(self, name, lo=-1000, hi=1000):
        return self.real(name, lo, hi)

    def int(self, name, lo, hi):
        v = self.inputs.get(name)
        return int(round(v)) if v is not None else int(lo)

    def bool(self, name):
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        return options[self.choices.get(name, 0)]

    def options(self, **k):
        self.opts.update(k)

    def assume(self, c):
        if not ctruth(c, 1e-9):
            raise AssumeFailed()

    def prefer(self, *c):
        pass

    def alt(self, c):
        pass

    def implied(self, c):
        return ctruth(c, 0)

    def stop(self):
        raise Stop()

    # -- claims
    def check(self, name, cond, known=(), exact=False):
        ok = ctruth(cond, 0.0 if exact else TOL)
        ks = [f for f, c in known if f in self.known_ids and ctruth(c, 1e-9)]
        self.results.append((name, bool(ok), ks, "" if ok else _describe(cond)))
        return ok

    def reach(self, name):
        pass

    def eq(self, a, b, tol=None):
        return rel("eq", a, b, tol)

    def le(self, a, b, tol=None):
        return rel("le", a, b, tol)

    def ge(self, a, b, tol=None):
        return rel("le", b, a, tol)

    def lt(self, a, b, tol=None):
        return Not(rel("le", b, a, tol))

    def gt(self, a, b, tol=None):
        return Not(rel("le", a, b, tol))

    def And(self, *x):
        return And(x)

    def Or(self, *x):
        return Or(x)

    def Not(self, x):
        return Not(x)

    def Implies(self, a, b):
        return Or([Not(a), b])

    def Iff(self, a, b):
        return And([Or([Not(a), b]), Or([Not(b), a])])

    # -- values
    def ite(self, c, a, b):
        return a if (ctruth(c, 0) if isinstance(c, Node) else bool(c)) else b

    def max(self, a, *b):
        return max(a, *b)

    def min(self, a, *b):
        return min(a, *b)

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return math.sqrt(a)

    def floor(self, a):
        return math.floor(a)

    def cos(self, a):
        return math.cos(a)

    def sin(self, a):
        return math.sin(a)

    def ang(self, z):
        return float(np.angle(z))

    def cplx(self, re, im):
        return complex(re, im)

    def array(self, x):
        return np.array(x)

    def isfinite(self, x):
        return bool(np.all(np.isfinite(np.asarray(x, dtype=complex if claims.iscomplex(x) else float))))

    # -- code
    def mod(self, name):
        return importlib.import_module(name)

    def patch(self, modname, attr, val):
        setattr(self.mod(modname), attr, val)

    def patch_obj(self, obj, attr, val):
        setattr(obj, attr, val)

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:
            return Outcome(None, e)

    def rng(self, stream):
        return ScriptedRNG(self, stream)

    def hidden_draw(self, stream, n, real):
        k = self.hidden.get(stream, 0)
        self.hidden[stream] = k + 1
        ent = self.script.get("%s#%d" % (stream, k))
        if ent is None or ent["method"] != n:
            return real()
        conv = (lambda x: int(round(x))) if ent.get("int") else float
        if ent.get("shape") is None:
            return conv(ent["values"][0])
        return np.array([conv(x) for x in ent["values"]]).reshape(ent["shape"])

    def lin(self):
        """Recorded calls of the linear solver: [(A, b, x)]."""
        return self.lin_calls

    def linear(self, script, force=False):
        self.lin_script = (list(script), len(self.lin_calls)) if force or self.use_lin else None

    def cps(self):
        return []

    # -- environment set-up
    def install(self, use_script_lin):
        import gymnasium.utils.seeding as seeding
        import gymnasium.core as gcore

        self.use_lin = use_script_lin
        if not self.rng_real:
            def np_random(seed=None):
                return ScriptedRNG(self, "seed=%s" % (seed,) if seed is not None else "unseeded"), seed

            seeding.np_random = np_random
            prop = gcore.Env.np_random

            def getter(env):
                if env._np_random is None:
                    env._np_random = ScriptedRNG(self, "env-unseeded")
                    env._np_random_seed = -1
                return env._np_random

            gcore.Env.np_random = property(getter, prop.fset)
            for stream, module in (("numpy.random", np.random), ("random", random)):
                used = {e["method"] for k, e in self.script.items() if k.startswith(stream + "#")}
                for n in used:
                    if hasattr(module, n):
                        real = getattr(module, n)
                        setattr(module, n, lambda *a, _r=real, _n=n, _s=stream, **k: self.hidden_draw(_s, _n, lambda: _r(*a, **k)))
            for key in self.script:
                if key.startswith("np.random.default_rng"):
                    np.random.default_rng = lambda seed=None, *a: ScriptedRNG(self, "np.random.default_rng" if seed is None else "np.random.default_rng(%s)" % (seed,))
        # record (and possibly replace) the linear solver of the load flow
        import scipy.sparse.linalg as sla

        def wrap(real):
            def solver(A, b, *a, **k):
                fn = sys._getframe(1).f_code.co_filename
                if "gym_anm" not in fn and not fn.endswith("symx/conc.py"):
                    return real(A, b, *a, **k)
                n = len(self.lin_calls)
                rec = self.script.get("lin#%d" % n) if use_script_lin else None
                Ad = A.toarray() if hasattr(A, "toarray") else np.array(A)
                # recorded before the script is asked, which may end the run
                self.lin_calls.append(dict(A=Ad, b=np.array(b.toarray() if hasattr(b, "toarray") else b).reshape(-1), x=None, kind="any"))
                if self.lin_script is not None:
                    sc, base = self.lin_script
                    item = sc[n - base] if n - base < len(sc) else "zero"
                    m = len(np.asarray(b.toarray() if hasattr(b, "toarray") else b).reshape(-1))
                    if isinstance(item, str):
                        x = real(A, b, *a, **k) if item == "exact" else np.full(m, float("nan")) if item == "nan" else np.zeros(m)
                    else:
                        x = np.array(item(m) if callable(item) else item, dtype=float)
                elif rec is not None:
                    x = np.array([float("nan") if v is None else v for v in rec["values"]])
                else:
                    x = real(A, b, *a, **k)
                self.lin_calls[n]["x"] = np.array(x)
                return np.array(x, copy=True)

            return solver

        import scipy.linalg as dla

        def factor(real):
            class Factor(object):
                def __init__(self, A, *a, **k):
                    self.A = A

                def solve(self, b, *a):
                    return sla.spsolve(self.A, b)

                __call__ = solve

            return lambda A, *a, **k: Factor(A) if "gym_anm" in sys._getframe(1).f_code.co_filename else real(A, *a, **k)

        for holder, nm in ((sla, "spsolve"), (np.linalg, "solve"), (dla, "solve"), (sla, "splu"), (sla, "factorized")):
            real = getattr(holder, nm)
            w = wrap(real) if nm in ("spsolve", "solve") else factor(real)
            setattr(holder, nm, w)
            for mn, m in list(sys.modules.items()):
                if mn.startswith("gym_anm"):
                    for g, v in list(vars(m).items()):
                        if v is real:
                            setattr(m, g, w)


def _describe(c):
    out = []

    def go(n, depth=0):
        if len(out) > 6:
            return
        n = node(n)
        if isinstance(n, Rel):
            if not ctruth(n, TOL):
                out.append("%s: %r vs %r" % (n.op, _f(n.a), _f(n.b)))
        elif isinstance(n, Raw):
            if not ctruth(n, TOL):
                out.append("condition false")
        elif isinstance(n, (And, Or)):
            for x in n.xs:
                if not ctruth(x, TOL):
                    go(x)
        elif isinstance(n, Not):
            out.append("negated condition holds")

    try:
        go(c)
    except Exception as e:
        out.append(repr(e))
    return "; ".join(out)


def _f(x):
    try:
        return float(x)
    except Exception:
        return x
