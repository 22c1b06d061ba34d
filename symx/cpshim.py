"""cvxpy for the modules under test.

An expression is a function of the values of variables and parameters; `Problem.solve` does not
solve anything: it returns fresh symbols constrained by what the solver contract guarantees.
"""
import types, math
import z3
import numpy as np
from . import core, npshim
from .core import SymNum, Unsupported, b_and, b_or, b_not, num_abs
from .npshim import SymArray, _arr, emap

OPTIMAL, INFEASIBLE, UNBOUNDED = "optimal", "infeasible", "unbounded"
OPTIMAL_INACCURATE = "optimal_inaccurate"


class SolverError(Exception):
    pass


class DCPError(Exception):
    pass


def _shape(x):
    if isinstance(x, CpExpr):
        return x.shape
    return npshim._shape_of(x)


def lift(x):
    if isinstance(x, CpExpr):
        return x
    if hasattr(x, "toarray"):
        x = x.toarray()
    a = SymArray.make(x)
    return CpExpr(a.shape, lambda env, a=a: a, [])


class CpExpr(object):
    __array_priority__ = 10000.0
    __array_ufunc__ = None

    def __init__(self, shape, ev, leaves):
        self.shape = tuple(shape)
        self._ev = ev
        self.leaves = leaves

    def ev(self, env):
        r = self._ev(env)
        if isinstance(r, np.ndarray):
            if r.shape != self.shape:
                r = np.broadcast_to(r, self.shape)
            return r
        a = np.empty(self.shape, dtype=object)
        a[...] = npshim._cell(r)
        return SymArray.wrap(a)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape else 1

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        return self.shape[0]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    @property
    def value(self):
        env = {}
        for l in self.leaves:
            if l._value is None:
                return None
            env[l] = l._value
        r = self.ev(env)
        return r if self.shape else r[()]

    def value_array(self):
        return self.value

    def variables(self):
        out = []
        for l in self.leaves:
            if isinstance(l, Variable) and l not in out:
                out.append(l)
        return out

    def parameters(self):
        out = []
        for l in self.leaves:
            if isinstance(l, Parameter) and l not in out:
                out.append(l)
        return out

    @property
    def T(self):
        return CpExpr(self.shape[::-1], lambda env: self.ev(env).T, self.leaves)

    def __getitem__(self, key):
        probe = np.empty(self.shape, dtype=np.int8)
        if isinstance(key, SymNum):
            key = key.__index__()
        if isinstance(key, tuple):
            key = tuple(k.__index__() if isinstance(k, SymNum) else k for k in key)
        if isinstance(key, np.ndarray) and key.dtype == object:
            key = np.array([int(k) for k in key.reshape(-1)]).reshape(key.shape)
        sh = probe[key].shape

        def f(env):
            r = np.ndarray.__getitem__(self.ev(env).view(np.ndarray), key)
            if not isinstance(r, np.ndarray):
                return r
            return SymArray.wrap(r)

        return CpExpr(sh, f, self.leaves)

    def _bin(self, o, fn, rev=False):
        o = lift(o)
        a, b = (o, self) if rev else (self, o)
        sh = np.broadcast_shapes(a.shape, b.shape)
        return CpExpr(sh, lambda env: emap(fn, a.ev(env), b.ev(env)), _merge(a, b))

    def __add__(self, o):
        return self._bin(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self._bin(o, lambda x, y: x + y, True)

    def __sub__(self, o):
        return self._bin(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._bin(o, lambda x, y: x - y, True)

    def __mul__(self, o):
        if len(_shape(o)) >= 1 and len(self.shape) >= 1 and math.prod(_shape(o)) != 1 and self.size != 1:
            return self @ o
        return self._bin(o, lambda x, y: x * y)

    def __rmul__(self, o):
        if len(_shape(o)) >= 1 and len(self.shape) >= 1 and math.prod(_shape(o)) != 1 and self.size != 1:
            return lift(o) @ self
        return self._bin(o, lambda x, y: x * y, True)

    def __truediv__(self, o):
        return self._bin(o, lambda x, y: npshim.s_div(x, y))

    def __rtruediv__(self, o):
        raise Unsupported("division by an expression")

    def __neg__(self):
        return CpExpr(self.shape, lambda env: emap(lambda x: -x, self.ev(env)), self.leaves)

    def __pos__(self):
        return self

    def __pow__(self, n):
        return power(self, n)

    def __abs__(self):
        return cp_abs(self)

    def __matmul__(self, o):
        o = lift(o)
        sh = np.matmul(np.zeros(self.shape), np.zeros(o.shape)).shape
        return CpExpr(sh, lambda env: npshim.f_dot(self.ev(env), o.ev(env)), _merge(self, o))

    def __rmatmul__(self, o):
        return lift(o) @ self

    def __le__(self, o):
        return CpConstraint(self, lift(o), "<=")

    def __ge__(self, o):
        return CpConstraint(lift(o), self, "<=")

    def __eq__(self, o):
        return CpConstraint(self, lift(o), "==")

    def __lt__(self, o):
        raise NotImplementedError("Strict inequalities are not allowed.")

    __gt__ = __lt__
    __hash__ = object.__hash__

    def flatten(self, *a, **k):
        return CpExpr((self.size,), lambda env: self.ev(env).reshape(-1), self.leaves)

    def __repr__(self):
        return "<cpexpr>"

    def __format__(self, s):
        return "<cpexpr>"

    def __deepcopy__(self, memo):
        return self


def _merge(*xs):
    out = []
    for x in xs:
        for l in x.leaves:
            if not any(l is m for m in out):
                out.append(l)
    return out


class Leaf(CpExpr):
    made = 0

    def __init__(self, shape=(), name=None, nonneg=False, nonpos=False, value=None, pos=False, neg=False, bounds=None, **kw):
        if isinstance(shape, (int, np.integer, SymNum)):
            shape = (int(shape.__index__()) if isinstance(shape, SymNum) else int(shape),)
        if kw and any(kw.values()):
            raise Unsupported("cvxpy leaf attributes %s" % sorted(kw))
        if bounds is not None:
            raise Unsupported("cvxpy variable bounds")
        shape = tuple(int(x) for x in shape)
        if 0 in shape:
            raise ValueError("Invalid dimensions %s." % (shape,))
        super().__init__(shape, lambda env: env[self], [self])
        Leaf.made += 1
        self.id = Leaf.made
        self._value = None
        self.nonneg = nonneg or pos
        self.nonpos = nonpos or neg
        if value is not None:
            self.value = value

    @property
    def value(self):
        if self._value is None:
            return None
        return self._value if self.shape else self._value[()]

    @value.setter
    def value(self, v):
        if v is None:
            self._value = None
            return
        a = SymArray.make(v, "float")
        if a.shape != self.shape:
            raise ValueError("Invalid dimensions %s for %s value." % (a.shape, type(self).__name__))
        bad = []
        for x in a.reshape(-1):
            if npshim.s_isnan(x):
                raise ValueError("%s value must be real." % type(self).__name__)
            if self.nonneg:
                bad.append(x < -1e-10 if not isinstance(x, SymNum) else x < 0)
            if self.nonpos:
                bad.append(x > 0)
        if bad and bool(b_or(*bad)):
            raise ValueError("%s value must be nonnegative." % type(self).__name__)
        self._value = a

    __hash__ = object.__hash__


class Variable(Leaf):
    pass


class Parameter(Leaf):
    pass


class CpConstraint(object):
    def __init__(self, a, b, op):
        self.a, self.b, self.op = a, b, op
        self.shape = np.broadcast_shapes(a.shape, b.shape)
        self.leaves = _merge(a, b)

    def diffs(self, env):
        """a - b elementwise."""
        out = []
        for x, y in zip(np.broadcast_to(self.a.ev(env), self.shape).reshape(-1), np.broadcast_to(self.b.ev(env), self.shape).reshape(-1)):
            out.append((x, y))
        return out

    def holds(self, env):
        conds = []
        for x, y in self.diffs(env):
            conds.append(x <= y if self.op == "<=" else x == y)
        return b_and(*conds)

    def __bool__(self):
        raise Exception("Cannot evaluate the truth value of a constraint or chain constraints.")

    def variables(self):
        return [l for l in self.leaves if isinstance(l, Variable)]

    __hash__ = object.__hash__


class Objective(object):
    sign = 1

    def __init__(self, e):
        self.e = lift(e)
        if self.e.size != 1:
            raise ValueError("The objective must resolve to a scalar.")
        self.leaves = self.e.leaves
        self.args = [self.e]

    @property
    def expr(self):
        return self.e

    @property
    def value(self):
        return self.e.value


class Minimize(Objective):
    sign = 1


class Maximize(Objective):
    sign = -1


class Problem(object):
    def __init__(self, objective, constraints=None):
        self.objective = objective
        self.constraints = list(constraints) if constraints is not None else []
        flat = []
        for c in self.constraints:
            if isinstance(c, (bool, np.bool_)):
                if not c:
                    flat.append(CpConstraint(lift(1.0), lift(0.0), "<="))
                continue
            if isinstance(c, core.SymBool):
                v = c
                flat.append(CpConstraint(lift(core.ite(v, 0.0, 1.0)), lift(0.0), "<="))
                continue
            if not isinstance(c, CpConstraint):
                raise ValueError("Problem constraints must be valid")
            flat.append(c)
        self.constraints = flat
        self.status = None
        self._leaves = _merge(objective, *flat) if flat else list(objective.leaves)

    def variables(self):
        return [l for l in self._leaves if isinstance(l, Variable)]

    def parameters(self):
        return [l for l in self._leaves if isinstance(l, Parameter)]

    def is_dcp(self, *a, **k):
        return True

    is_qp = is_dcp

    @property
    def value(self):
        return self.objective.value

    # -- evaluation at arbitrary points (used by the harnesses) -----------------------
    def env(self, vals):
        e = {}
        for l in self.parameters():
            if l._value is None:
                raise ValueError("A Parameter (whose name is '%s') does not have a value associated with it; all Parameter objects must have values before solving a problem." % "param")
            e[l] = l._value
        for v in self.variables():
            e[v] = vals[v]
        return e

    def feasible_at(self, vals):
        env = self.env(vals)
        cs = [c.holds(env) for c in self.constraints]
        for v in self.variables():
            for x in env[v].reshape(-1):
                if v.nonneg:
                    cs.append(x >= 0)
                if v.nonpos:
                    cs.append(x <= 0)
        return b_and(*cs)

    def objective_at(self, vals):
        v = self.objective.e.ev(self.env(vals)).reshape(-1)[0]
        return v if self.objective.sign > 0 else -v

    def point(self, flat):
        """Assignment of all variables from a flat list (in order of first use)."""
        out, k = {}, 0
        for v in self.variables():
            n = v.size
            a = np.empty(n, dtype=object)
            for i in range(n):
                a[i] = flat[k + i]
            out[v] = SymArray.wrap(a.reshape(v.shape), "float")
            k += n
        if k != len(flat):
            raise Unsupported("point of the wrong size")
        return out

    def nvars(self):
        return sum(v.size for v in self.variables())

    def solve(self, *a, **k):
        c = core.ctx()
        n = len(c.problems)
        c.problems.append(self)
        mode = c.opts.get("cp", "free")
        flat = [c.fresh("qp%d" % n) for _ in range(self.nvars())]
        if c.opts.get("functional"):
            # the solver is a function of the problem: equal problems, equal answers
            canon = [c.canon("cpvar%d" % i) for i in range(len(flat))]
            pt = self.point(canon)
            ob, fe = self.objective_at(pt), self.feasible_at(pt)
            key = ("cp", len(flat), core.r_key(core.SymNum.lift(ob).p), fe if isinstance(fe, bool) else z3.simplify(fe.z).sexpr())
            if key not in c.bykey:
                for o2, f2, fl in c.__dict__.setdefault("cp_seen", []):
                    if len(fl) == len(flat) and c.implied(ob == o2) is True and c.implied(core.b_and(core.b_implies(fe, f2), core.b_implies(f2, fe))) is True:
                        c.bykey[key] = fl
                        break
            if key not in c.bykey:
                c.bykey[key] = flat
                c.cp_seen.append((ob, fe, flat))
            flat = c.bykey[key]
        vals = self.point(flat)
        env = self.env(vals)
        rec = dict(problem=self, x=vals, flat=flat)
        c.stub_calls.setdefault("cp", []).append(rec)
        hook = c.opts.get("cp_hook")
        if hook is not None:
            r = hook(self, vals, flat)
            if r == "infeasible":
                return self._fail(rec)
        else:
            if mode == "contract" and c.opts.get("cp_infeasible", True):
                if c.choose(2) == 1:
                    # claimed infeasible: contradicts any known feasible point
                    for w in c.opts.get("cp_points", ()):
                        if len(w) == len(flat):
                            c.assume(b_not(self.feasible_at(self.point(list(w)))))
                    return self._fail(rec)
            c.assume(self.feasible_at(vals))
            if mode == "contract":
                ox = self.objective_at(vals)
                for w in c.opts.get("cp_points", ()):
                    if len(w) != len(flat):
                        continue
                    pw = self.point(list(w))
                    if c.opts.get("cp_own"):
                        # only the point that is optimal outright (the request of this problem)
                        o = self.objective_at(pw)
                        if not (core.SymNum.lift(o).isconst() and core.SymNum.lift(o).cval() == 0):
                            continue
                    c.assume(core.b_implies(self.feasible_at(pw), ox <= self.objective_at(pw)))
            if c.opts.get("cp_prefer_zero", True):
                pass
        for v in self.variables():
            v._value = vals[v]
        self.status = OPTIMAL
        for f in c.opts.get("cp_after", ()):
            f(self, vals)
        return self.objective_at(vals)

    def _fail(self, rec):
        rec["status"] = INFEASIBLE
        self.status = INFEASIBLE
        for v in self.variables():
            v._value = None
        return math.inf * self.objective.sign


# -- atoms --------------------------------------------------------------------------
def sum_squares(e):
    e = lift(e)

    def f(env):
        s = 0.0
        for x in e.ev(env).reshape(-1):
            s = s + x * x
        return s

    return CpExpr((), f, e.leaves)


def power(e, n):
    e = lift(e)
    return CpExpr(e.shape, lambda env: emap(lambda x: x ** n, e.ev(env)), e.leaves)


def square(e):
    return power(e, 2)


def cp_abs(e):
    e = lift(e)
    return CpExpr(e.shape, lambda env: emap(abs, e.ev(env)), e.leaves)


def _ext(fn):
    def f(*args):
        es = [lift(a) for a in args]
        sh = np.broadcast_shapes(*[e.shape for e in es])

        def ev(env):
            r = es[0].ev(env)
            for e in es[1:]:
                r = emap(fn, r, e.ev(env))
            return r

        return CpExpr(sh, ev, _merge(*es))

    return f


maximum = _ext(npshim.s_max)
minimum = _ext(npshim.s_min)


def pos(e):
    return maximum(e, 0)


def neg(e):
    return maximum(-lift(e), 0)


def cp_sum(e, axis=None, keepdims=False):
    if isinstance(e, (list, tuple)) and any(isinstance(x, CpExpr) for x in e):
        r = lift(0.0)
        for x in e:
            r = r + x
        return r
    e = lift(e)
    if axis is None:
        return CpExpr((), lambda env: npshim.f_sum(e.ev(env)), e.leaves)
    sh = np.zeros(e.shape).sum(axis=axis).shape
    return CpExpr(sh, lambda env: npshim.f_sum(e.ev(env), axis=axis), e.leaves)


def _sum_builtin(es):
    r = lift(0.0)
    for e in es:
        r = r + e
    return r


def cp_max(e, axis=None):
    e = lift(e)
    if axis is not None:
        raise Unsupported("cp.max axis")
    return CpExpr((), lambda env: npshim.f_amax(e.ev(env)), e.leaves)


def cp_min(e, axis=None):
    e = lift(e)
    return CpExpr((), lambda env: npshim.f_amin(e.ev(env)), e.leaves)


def norm(e, p=2, axis=None):
    e = lift(e)
    if axis is not None:
        raise Unsupported("cp.norm axis")
    if p in (2, "fro"):
        return CpExpr((), lambda env: npshim.f_norm(e.ev(env).reshape(-1)), e.leaves)
    if p == 1:
        return CpExpr((), lambda env: npshim.f_sum(emap(abs, e.ev(env))), e.leaves)
    if p in ("inf", np.inf):
        return CpExpr((), lambda env: npshim.f_amax(emap(abs, e.ev(env))), e.leaves)
    raise Unsupported("cp.norm")


def multiply(a, b):
    return lift(a)._bin(lift(b), lambda x, y: x * y)


def quad_form(x, P):
    x = lift(x)
    P = SymArray.make(P)
    return CpExpr((), lambda env: npshim.f_dot(x.ev(env), npshim.f_dot(P, x.ev(env))), x.leaves)


def hstack(es):
    es = [lift(e) for e in es]
    sh = np.hstack([np.zeros(e.shape) for e in es]).shape
    return CpExpr(sh, lambda env: npshim._joined(np.hstack)([e.ev(env) for e in es]), _merge(*es))


def vstack(es):
    es = [lift(e) for e in es]
    sh = np.vstack([np.zeros(e.shape) for e in es]).shape
    return CpExpr(sh, lambda env: npshim._joined(np.vstack)([e.ev(env) for e in es]), _merge(*es))


def make_module():
    m = types.ModuleType("cvxpy")
    for n, v in dict(Variable=Variable, Parameter=Parameter, Problem=Problem, Minimize=Minimize, Maximize=Maximize, sum_squares=sum_squares,
                     square=square, power=power, abs=cp_abs, maximum=maximum, minimum=minimum, pos=pos, neg=neg, sum=cp_sum, max=cp_max, min=cp_min,
                     norm=norm, norm2=norm, norm1=lambda e: norm(e, 1), multiply=multiply, hstack=hstack, vstack=vstack, quad_form=quad_form,
                     Constant=lift, Expression=CpExpr, SolverError=SolverError, OPTIMAL=OPTIMAL, INFEASIBLE=INFEASIBLE, UNBOUNDED=UNBOUNDED,
                     OPTIMAL_INACCURATE=OPTIMAL_INACCURATE, OSQP="OSQP", ECOS="ECOS", SCS="SCS", CLARABEL="CLARABEL", GUROBI="GUROBI").items():
        setattr(m, n, v)
    err = types.ModuleType("cvxpy.error")
    err.SolverError, err.DCPError = SolverError, DCPError
    m.error = err
    return {"cvxpy": m, "cvxpy.error": err}
