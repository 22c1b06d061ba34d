"""Symbolic mode of the harness interface, and random generators as symbolic streams."""
import math
from fractions import Fraction
import numpy as np
import z3
from . import core, npshim, claims, loader
from .core import SymNum, SymBool, SymComplex, Unsupported, PathEnd, b_and, b_or, b_not, num_cmp
from .npshim import SymArray
from .claims import Node, Rel, Raw, And, Or, Not, node, rel
from .conc import Outcome

SYM = (SymNum, SymBool, SymComplex)


class SymStop(core.PathEnd):
    pass


# -- random streams -------------------------------------------------------------------
def _akey(x):
    if isinstance(x, SymNum):
        return ("s", core.p_key(x.p))
    if isinstance(x, np.ndarray):
        return ("a", tuple(_akey(v) for v in x.reshape(-1)))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(_akey(v) for v in x))
    try:
        hash(x)
        return x
    except TypeError:
        return repr(x)


class SymRNG(object):
    """A generator as a stream of arbitrary values: the k-th draw of two generators with the same
    seed is the same when method and arguments agree; draws of a hidden (unseeded or global)
    generator are fresh every time."""

    def __init__(self, stream, hidden=False):
        self.stream, self.hidden, self.k, self.hist = stream, hidden, 0, ()

    def __deepcopy__(self, memo):
        r = SymRNG(self.stream, self.hidden)
        r.k, r.hist = self.k, self.hist
        return r

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: self.draw(n, a, k)

    def draw(self, n, a, k):
        c = core.ctx()
        if n in ("seed", "set_state", "getstate", "get_state", "setstate"):
            return None
        c.rng_draws = getattr(c, "rng_draws", [])
        if self.hidden:
            cnt = c.counter.get("hidden " + self.stream, 0)
            c.counter["hidden " + self.stream] = cnt + 1
            idx = cnt
            key = None
        else:
            idx = self.k
            self.k += 1
            self.hist = self.hist + ((n, _akey(list(a)), _akey(sorted(k.items()))),)
            key = ("rng", self.stream, self.hist)
        c.rng_draws.append((self.stream, n))

        def arg(i, name, d=None):
            if name in k:
                return k[name]
            return a[i] if len(a) > i else d

        isint = False
        post = None
        if n == "uniform":
            lo, hi, size = arg(0, "low", 0.0), arg(1, "high", 1.0), arg(2, "size")
            strict = True
        elif n in ("random", "random_sample", "rand"):
            lo, hi, strict = 0.0, 1.0, True
            size = arg(0, "size")
            if n == "rand":
                size = tuple(a) or None
        elif n in ("integers", "randint", "randrange"):
            lo, hi, size = arg(0, "low"), arg(1, "high"), arg(2, "size")
            if hi is None:
                lo, hi = 0, lo
            strict = not k.get("endpoint", False)
            if n == "randint" and self.stream == "random":
                strict = False
            isint = True
            bad = (lo >= hi) if strict else (lo > hi)
            if bool(bad):
                raise ValueError("low >= high")
        elif n in ("normal", "standard_normal", "randn"):
            lo, hi, strict = None, None, False
            size = arg(2, "size") if n == "normal" else (arg(0, "size") if n != "randn" else (tuple(a) or None))
            if n == "normal":
                loc, scale = arg(0, "loc", 0.0), arg(1, "scale", 1.0)
                post = lambda v: loc + scale * v
        elif n == "choice":
            seq, size = arg(0, "a"), arg(1, "size")
            m = seq if isinstance(seq, (int, np.integer)) else len(seq)
            lo, hi, strict, isint = 0, int(m), True, True

            def post(v):
                i = int(v.concretize()) if isinstance(v, SymNum) else int(v)
                return i if isinstance(seq, (int, np.integer)) else seq[i]
        else:
            raise Unsupported("random generator method %s" % n)
        shape = None if size is None else (tuple(int(s) for s in size) if isinstance(size, (tuple, list, np.ndarray)) else (int(size),))
        num = 1 if shape is None else int(np.prod(shape))
        vs = c.bykey.get(key) if key is not None else None
        if vs is None:
            vs = []
            for i in range(num):
                l = lo.reshape(-1)[i] if isinstance(lo, np.ndarray) and lo.size == num else lo
                h = hi.reshape(-1)[i] if isinstance(hi, np.ndarray) and hi.size == num else hi
                v = c.fresh("rng_%s_%d" % (self.stream, idx), isint, True)
                if l is None:
                    c.assume(v >= -8)
                    c.assume(v <= 8)
                else:
                    c.assume(v >= l)
                    if strict:
                        # numpy returns low when low == high
                        c.assume(b_or(v < h, b_and(num_eq(l, h), num_eq(v, l))) if not isint else v < h)
                    else:
                        c.assume(v <= h)
                vs.append(v)
            if key is not None:
                c.bykey[key] = vs
        c.rng_script = getattr(c, "rng_script", {})
        c.rng_script["%s#%d" % (self.stream, idx)] = dict(method=n, values=list(vs), shape=shape, int=isint)
        out = [post(v) for v in vs] if post else list(vs)
        if n == "choice":
            return out[0] if shape is None else SymArray.make(out).reshape(shape)
        if shape is None:
            return out[0]
        return SymArray.make(out, "int" if isint else "float").reshape(shape)


def num_eq(a, b):
    r = a == b
    return r


# -- claims on symbolic values ---------------------------------------------------------
def _dif(a, b):
    if isinstance(a, SymBool):
        a = a.num()
    if isinstance(b, SymBool):
        b = b.num()
    return a, b


def truth(n, slack):
    """Truth of a claim up to slack, as a bool or a SymBool."""
    n = node(n)
    if isinstance(n, Raw):
        v = n.v
        if isinstance(v, np.ndarray):
            v = npshim.f_all(v)
        return core._truthy(v)
    if isinstance(n, And):
        return b_and(*[truth(x, slack) for x in n.xs])
    if isinstance(n, Or):
        return b_or(*[truth(x, slack) for x in n.xs])
    if isinstance(n, Not):
        return b_not(truth(n.x, -slack))
    a, b = _dif(n.a, n.b)
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return claims.ctruth(n, max(abs(slack), 1e-9) if slack >= 0 else slack)
    for q in (a, b):
        if not isinstance(q, SymNum) and not core.fin(q):
            if n.op == "eq" or math.isnan(q):
                return False
            return a <= b
    if n.op == "le" and slack >= 0:
        if isinstance(b, SymNum) and b.nn and not isinstance(a, SymNum) and a <= 0:
            return True
        if isinstance(a, SymNum) and (-a).nn and not isinstance(b, SymNum) and b >= 0:
            return True
    d = SymNum.lift(a) - SymNum.lift(b)
    if n.op == "eq":
        d = clear(d)
        if not isinstance(d, SymNum) or d.isconst():
            v = d.cval() if isinstance(d, SymNum) else d
            return abs(v) <= max(slack, Fraction(1, 10**9))
        if slack <= 0:
            return d == 0
        return b_and(orig(a, b) <= slack, orig(a, b) >= -slack)
    if d.isconst():
        return d.cval() <= (max(slack, Fraction(1, 10**9)) if slack >= 0 else slack)
    return d <= slack


def node_atoms(n, kinds, out):
    """Atoms of the given kinds in the polynomials of a claim."""
    c = core.ctx()
    n = node(n)
    if isinstance(n, Rel):
        for q in (n.a, n.b):
            if isinstance(q, SymBool):
                q = q.num()
            if isinstance(q, SymNum):
                for m in q.p:
                    for i, e in m:
                        if c.atoms[i].kind in kinds:
                            out.add(i)
    elif isinstance(n, (And, Or)):
        for x in n.xs:
            node_atoms(x, kinds, out)
    elif isinstance(n, Not):
        node_atoms(n.x, kinds, out)
    return out


def p_subst(p, i, q):
    """Polynomial p with atom i replaced by polynomial q."""
    c = core.ctx()
    out = {}
    for m, k in p.items():
        e = dict(m).get(i)
        if e is None:
            t = {m: k}
        else:
            rest = tuple(x for x in m if x[0] != i)
            f = core.p_pow(q, e) if e > 0 else core.p_pow(c.p_inv(q), -e)
            t = core.p_mul({rest: k}, f)
        out = core.p_add(out, t)
    return out


def node_subst(n, i, q):
    n = node(n)
    if isinstance(n, Rel):
        f = lambda x: SymNum(p_subst(x.p, i, q), x.isint, x.isnp) if isinstance(x, SymNum) else x
        return Rel(n.op, f(n.a.num() if isinstance(n.a, SymBool) else n.a), f(n.b.num() if isinstance(n.b, SymBool) else n.b), n.tol)
    if isinstance(n, And):
        return And([node_subst(x, i, q) for x in n.xs])
    if isinstance(n, Or):
        return Or([node_subst(x, i, q) for x in n.xs])
    if isinstance(n, Not):
        return Not(node_subst(n.x, i, q))
    return n


def orig(a, b):
    return SymNum.lift(a) - SymNum.lift(b)


def clear(d):
    """Numerator of d: multiplied by its (non-zero) denominators."""
    c = core.ctx()
    if not isinstance(d, SymNum):
        return d
    for _ in range(20):
        worst = {}
        for m, k in d.p.items():
            for i, e in m:
                if e < 0 and e < worst.get(i, 0):
                    worst[i] = e
        if not worst:
            break
        # only the composite denominators need expansion; simple atoms just shift exponents
        f = {tuple(sorted((i, -e) for i, e in worst.items())): Fraction(1)}
        simple = {i: e for i, e in worst.items() if i not in c.special}
        comp = {i: e for i, e in worst.items() if i in c.special}
        if simple:
            mm = tuple(sorted((i, -e) for i, e in simple.items()))
            d = SymNum({core.m_mul(m, mm): k for m, k in d.p.items()}, d.isint, d.isnp)
        if comp:
            i = sorted(comp)[0]
            d = SymNum(core.p_mul(d.p, {((i, -comp[i]),): Fraction(1)}), d.isint, d.isnp)
    # drop rounding noise of constants
    return d


class SymSession(object):
    mode = "sym"
    concrete = False
    symbolic = True

    def __init__(self, explorer):
        self.ex = explorer
        self.c = core.ctx()
        self.space = loader.Space()
        self.np = loader.shims()["numpy"]
        self.dt = loader.shims()["datetime"]
        self.math = loader.shims()["math"]
        self.rng_real = False

    # -- inputs
    def real(self, name, lo=-1000, hi=1000, np_=False):
        v = self.c.var(name, False, np_)
        self.c.inputs[name] = v
        self.c.add((v >= core.frac(lo)).z)
        self.c.add((v <= core.frac(hi)).z)
        self.c.bounds[next(iter(v.p))[0][0]] = (Fraction(core.frac(lo)), Fraction(core.frac(hi)))
        return v

    def once(self, name, lo=-1000, hi=1000):
        """The input of that name, made at the first call."""
        return self.c.inputs[name] if name in self.c.inputs else self.real(name, lo, hi)

    def int(self, name, lo, hi):
        v = self.c.var(name, True)
        self.c.inputs[name] = v
        self.c.add((v >= lo).z)
        self.c.add((v <= hi).z)
        self.c.bounds[next(iter(v.p))[0][0]] = (Fraction(lo), Fraction(hi))
        return v

    def bool(self, name):
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        if name in self.c.choices:
            return options[self.c.choices[name]]
        i = self.c.choose(len(options))
        self.c.choices[name] = i
        return options[i]

    def options(self, **k):
        self.c.opts.update(k)

    def assume(self, cond):
        t = truth(cond, 0)
        self.c.assume(t)
        if isinstance(t, SymBool):
            self.c.assumed = True

    def prefer(self, *conds):
        for x in conds:
            t = truth(x, 0)
            if isinstance(t, SymBool):
                self.c.prefs.append(t.z)

    def alt(self, cond):
        """A condition to try first when looking for a counterexample."""
        t = truth(cond, 0)
        if isinstance(t, SymBool):
            self.c.alts.append(t.z)

    def implied(self, cond):
        return self.c.implied(truth(cond, 0))

    def stop(self):
        raise SymStop("stop")

    # -- claims
    def check(self, name, cond, known=(), exact=False):
        self.ex.check(name, cond, known, exact)

    def eq(self, a, b, tol=None):
        return rel("eq", a, b, tol)

    def le(self, a, b, tol=None):
        return rel("le", a, b, tol)

    def ge(self, a, b, tol=None):
        return rel("le", b, a, tol)

    def lt(self, a, b, tol=None):
        return Not(rel("le", b, a, tol))

    def gt(self, a, b, tol=None):
        return Not(rel("le", a, b, tol))

    def And(self, *x):
        return And(x)

    def Or(self, *x):
        return Or(x)

    def Not(self, x):
        return Not(x)

    def Implies(self, a, b):
        return Or([Not(a), b])

    def Iff(self, a, b):
        return And([Or([Not(a), b]), Or([Not(b), a])])

    # -- values
    def ite(self, c, a, b):
        return core.ite(truth(c, 0) if isinstance(c, Node) else c, a, b)

    def max(self, a, *bs):
        for b in bs:
            a = core.num_max(a, b)
        return a

    def min(self, a, *bs):
        for b in bs:
            a = core.num_min(a, b)
        return a

    def abs(self, a):
        return abs(a)

    def sqrt(self, a):
        return core.num_sqrt(a) if isinstance(a, SymNum) else math.sqrt(a)

    def floor(self, a):
        return core.num_floor(a) if isinstance(a, SymNum) else math.floor(a)

    def cos(self, a):
        return core.num_cos(a)

    def sin(self, a):
        return core.num_sin(a)

    def ang(self, z):
        return core.num_angle(z.real, z.imag)

    def cplx(self, re, im):
        return SymComplex(re, im)

    def array(self, x):
        return SymArray.make(x)

    def isfinite(self, x):
        r = npshim.emap(npshim.s_isfinite, x)
        return npshim.f_all(r) if isinstance(r, np.ndarray) else r

    # -- code
    def mod(self, name):
        if name == "gym_anm" or name.startswith("gym_anm."):
            return self.space.load(name)
        return self.space.ext(name)

    def patch(self, modname, attr, val):
        setattr(self.mod(modname), attr, val)

    def patch_obj(self, obj, attr, val):
        setattr(obj, attr, val)

    def call(self, fn, *a, **k):
        try:
            return Outcome(fn(*a, **k))
        except Exception as e:
            if self.c.dead:
                raise PathEnd(self.c.dead)
            e.__traceback__ = None
            return Outcome(None, e)

    def rng(self, stream):
        return SymRNG(stream)

    def lin(self):
        return self.c.stub_calls.get("linsolve", [])

    def linear(self, script, force=False):
        """Results of the next calls of the linear solver: vectors (or functions of the size),
        "exact" (a solution), "nan", then zeros. Concrete runs use the real solver unless forced
        or asked to reproduce solver failures."""
        self.c.opts["lin_script"], self.c.opts["lin_base"] = list(script), len(self.lin())
        self.c.opts["lin_used"] = True

    def cps(self):
        return self.c.stub_calls.get("cp", [])
