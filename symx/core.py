"""Symbolic values and path exploration.

Numbers are kept as Laurent polynomials over atoms (inputs and defined terms) with exact
rational coefficients, so that algebraic identities fold syntactically; everything that does
not fold is decided by z3.  Branches on symbolic conditions fork the path (depth-first search
by re-execution).
"""
import math, time, datetime
from fractions import Fraction
import numpy as _np
import z3

INF = float("inf")
NAN = float("nan")


class EngineStop(BaseException):
    """Base class of the control-flow exceptions of the engine."""


class PathEnd(EngineStop):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(EngineStop):
    """The code under test uses something the engine does not encode."""

    def __init__(self, *a):
        super().__init__(*a)
        if CTX is not None and not CTX.dead:  # cannot be swallowed by a bare except
            CTX.dead = "unsupported: %s" % (a[0] if a else "")
            CTX.unsupported = str(a[0]) if a else "?"


class Budget(EngineStop):
    """A resource limit of the exploration was reached."""


CTX = None  # the context of the path being executed


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside of a path")
    return CTX


# --------------------------------------------------------------------------------------
# polynomials: dict {monomial: Fraction}; monomial = tuple of (atom_id, exponent), sorted
# --------------------------------------------------------------------------------------
ONE_M = ()


def p_const(c):
    c = Fraction(c)
    return {ONE_M: c} if c else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c
        else:
            v = v + c
            if v:
                r[m] = v
            else:
                del r[m]
    return r


def p_scale(a, k):
    if not k:
        return {}
    return {m: c * k for m, c in a.items()}


def p_neg(a):
    return {m: -c for m, c in a.items()}


def p_sub(a, b):
    return p_add(a, p_neg(b))


def p_is_const(a):
    return not a or (len(a) == 1 and ONE_M in a)


def p_cval(a):
    return a.get(ONE_M, Fraction(0))


def m_mul(m1, m2):
    """Product of two monomials (unreduced)."""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for k, e in m2:
        n = d.get(k, 0) + e
        if n:
            d[k] = n
        else:
            d.pop(k, None)
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if not a or not b:
        return {}
    if p_is_const(a):
        return p_scale(b, p_cval(a))
    if p_is_const(b):
        return p_scale(a, p_cval(b))
    c = ctx()
    if len(a) * len(b) > c.opts.get("max_terms", 60000):
        raise Unsupported("polynomial too large")
    r = {}
    todo = []
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            k = c1 * c2
            if c.special and any((i in c.special and c.special[i](e)) for i, e in m):
                todo.append((m, k))
            else:
                v = r.get(m)
                if v is None:
                    r[m] = k
                else:
                    v += k
                    if v:
                        r[m] = v
                    else:
                        del r[m]
    for m, k in todo:
        r = p_add(r, p_scale(c.reduce_monomial(m), k))
    return r


def p_key(a):
    return tuple(sorted(a.items()))


def r_key(a):
    """Key up to the rounding of float constants."""
    return tuple(sorted((m, "%.11e" % float(k)) for m, k in a.items()))


def p_pow(a, n):
    r = p_const(1)
    for _ in range(n):
        r = p_mul(r, a)
    return r


class Atom(object):
    __slots__ = ("id", "name", "kind", "isint", "z", "data", "sq", "mm", "nn", "iv")

    def __init__(self, id, name, kind, isint, z, data=None, sq=None):
        self.nn = self.iv = None  # known not to be negative; known interval
        self.mm = 0   # 1: the larger of two, -1: the smaller of two
        self.id, self.name, self.kind, self.isint, self.z, self.data, self.sq = id, name, kind, isint, z, data, sq


# --------------------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------------------
def isnum(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_)) and not isinstance(x, (_np.ndarray,))


def frac(x):
    """Exact value of a concrete number: decimal literals keep their decimal meaning."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, _np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, _np.integer)):
        return Fraction(int(x))
    return Fraction(repr(float(x)))


def fin(x):
    """True if the concrete number is finite."""
    return isinstance(x, (int, Fraction, _np.integer, bool, _np.bool_)) or math.isfinite(x)


def tofloat(fr, isint=False):
    if isint and fr.denominator == 1:
        return int(fr)
    return float(fr)


class SymBool(object):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return ctx().branch(self.z)

    def __and__(self, o):
        return b_and(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, o)

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __xor__(self, o):
        return b_not(b_eq(self, o))

    __rxor__ = __xor__

    # arithmetic on booleans (np.sum(mask), True + True, ...)
    def num(self):
        return ite(self, SymNum.const(1, True), SymNum.const(0, True))

    def __add__(self, o):
        return self.num() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - o

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.num() / o

    def __neg__(self):
        return -self.num()

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __lt__(self, o):
        return self.num() < o

    def __le__(self, o):
        return self.num() <= o

    def __gt__(self, o):
        return self.num() > o

    def __ge__(self, o):
        return self.num() >= o

    def __eq__(self, o):
        if isinstance(o, (bool, _np.bool_, SymBool)):
            return b_eq(self, o)
        if isnum(o) or isinstance(o, SymNum):
            return self.num() == o
        return False

    def __ne__(self, o):
        return b_not(self.__eq__(o))

    def __hash__(self):
        return hash(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symbool>"

    def __format__(self, spec):
        return "<symbool>"

    def any(self, *a, **k):
        return self

    all = any

    def astype(self, t):
        return self

    def item(self):
        return self

    @property
    def shape(self):
        return ()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim

        return npshim.ufunc_dispatch(ufunc, method, inputs, kw)


def zb(x):
    """z3 boolean of a Python/symbolic truth value."""
    if isinstance(x, SymBool):
        return x.z
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (SymNum,)):
        return zb(x != 0)
    if isinstance(x, _np.ndarray) and x.size == 1:
        return zb(x.reshape(-1)[0])
    return z3.BoolVal(bool(x))


def mkbool(z):
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SymBool(z)


def b_not(a):
    if isinstance(a, SymBool):
        return mkbool(z3.Not(a.z)) if not z3.is_not(a.z) else SymBool(a.z.arg(0))
    return not a


def _truthy(a):
    if isinstance(a, SymBool):
        return a
    if isinstance(a, SymNum):
        return a != 0
    if isinstance(a, _np.ndarray):
        if a.size == 1:
            return _truthy(a.reshape(-1)[0])
        raise Unsupported("truth value of an array")
    return bool(a)


def b_and(*xs):
    out = []
    for x in xs:
        x = _truthy(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x.z)
    if not out:
        return True
    return SymBool(z3.And(*out)) if len(out) > 1 else SymBool(out[0])


def b_or(*xs):
    out = []
    for x in xs:
        x = _truthy(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x.z)
    if not out:
        return False
    return SymBool(z3.Or(*out)) if len(out) > 1 else SymBool(out[0])


def b_eq(a, b):
    if not isinstance(a, SymBool) and not isinstance(b, SymBool):
        return bool(a) == bool(b)
    return mkbool(z3.simplify(zb(a) == zb(b)))


def b_implies(a, b):
    return b_or(b_not(_truthy(a)), b)


class SymNum(object):
    """A real or integer expression."""

    __slots__ = ("p", "isint", "isnp", "_z", "_zi", "_known", "nn")

    def __init__(self, p, isint=False, isnp=False, nn=False):
        self.nn = nn  # known to be >= 0 by construction
        self.p = p
        self.isint = isint
        self.isnp = isnp
        self._z = None
        self._zi = None

    # -- construction ---------------------------------------------------------------
    @staticmethod
    def const(x, isint=False):
        return SymNum(p_const(frac(x)), isint)

    @staticmethod
    def lift(x):
        if isinstance(x, SymNum):
            return x
        if isinstance(x, SymBool):
            return x.num()
        return SymNum(p_const(frac(x)), isinstance(x, (int, bool, _np.integer, _np.bool_)), isinstance(x, _np.generic))

    def isconst(self):
        return p_is_const(self.p)

    def cval(self):
        return p_cval(self.p)

    def simplify(self):
        """A Python number when constant."""
        return self

    # -- z3 -------------------------------------------------------------------------
    @property
    def z(self):
        """The z3 real expression."""
        if self._z is None:
            self._z = ctx().poly_z3(self.p)
        return self._z

    # -- arithmetic -----------------------------------------------------------------
    def _co(self, o):
        """Coerce the other operand; None if not a number."""
        if isinstance(o, SymNum):
            return o
        if isinstance(o, SymBool):
            return o.num()
        if isinstance(o, (bool, int, float, Fraction, _np.integer, _np.floating, _np.bool_)):
            return o
        if isinstance(o, _np.ndarray) and o.ndim == 0:
            return self._co(o[()])
        return None

    def _res(self, p, o, isint):
        isnp = self.isnp or (o.isnp if isinstance(o, SymNum) else isinstance(o, _np.generic))
        r = SymNum(p, isint, isnp)
        return r

    def _nn(self, r, v):
        r.nn = v
        return r

    @staticmethod
    def _oint(o):
        return o.isint if isinstance(o, SymNum) else isinstance(o, (int, bool, _np.integer, _np.bool_))

    def _other(self, o, name):
        """Arithmetic with something that is not a real scalar."""
        if isinstance(o, (complex, _np.complexfloating)):
            return getattr(SymComplex(self, 0), name)(SymComplex.lift(o))
        if isinstance(o, _np.ndarray):
            from . import npshim

            return npshim.array_binop(name, self, o)
        if isinstance(o, datetime.timedelta) and name in ("__mul__", "__rmul__"):
            return self.concretize() * o
        return NotImplemented

    def __add__(self, o):
        c = self._co(o)
        if c is None:
            return self._other(o, "__add__")
        if not isinstance(c, SymNum):
            if not fin(c):
                return c + 0.0
            if c == 0 and not isinstance(c, _np.generic) and (self._oint(c) or not self.isint):
                return self
            return self._nn(self._res(p_add(self.p, p_const(frac(c))), c, self.isint and self._oint(c)), self.nn and c >= 0)
        return self._nn(self._res(p_add(self.p, c.p), c, self.isint and c.isint), self.nn and c.nn)

    __radd__ = __add__

    def __neg__(self):
        return SymNum(p_neg(self.p), self.isint, self.isnp)

    def __pos__(self):
        return self

    def __sub__(self, o):
        c = self._co(o)
        if c is None:
            return self._other(o, "__sub__")
        if not isinstance(c, SymNum):
            if not fin(c):
                return -c + 0.0
            return self._res(p_add(self.p, p_const(-frac(c))), c, self.isint and self._oint(c))
        return self._res(p_sub(self.p, c.p), c, self.isint and c.isint)

    def __rsub__(self, o):
        c = self._co(o)
        if c is None:
            return self._other(o, "__rsub__")
        return (-self) + c

    def __mul__(self, o):
        c = self._co(o)
        if c is None:
            return self._other(o, "__mul__")
        if not isinstance(c, SymNum):
            if not fin(c):
                if math.isnan(c):
                    return NAN
                if self == 0:
                    return NAN
                return c if self > 0 else -c
            return self._nn(self._res(p_scale(self.p, frac(c)), c, self.isint and self._oint(c)), self.nn and c >= 0)
        return self._nn(self._res(p_mul(self.p, c.p), c, self.isint and c.isint), self.nn and c.nn or c is self or len(self.p) == len(c.p) and self.p == c.p)

    __rmul__ = __mul__

    def __truediv__(self, o):
        c = self._co(o)
        if c is None:
            return self._other(o, "__truediv__")
        return num_div(self, c)

    def __rtruediv__(self, o):
        c = self._co(o)
        if c is None:
            return self._other(o, "__rtruediv__")
        return num_div(c, self)

    def __floordiv__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        q = num_div(self, c)
        if not isinstance(q, SymNum):
            return math.floor(q) if fin(q) else q
        f = num_floor(q)
        return f if (self.isint and self._oint(c)) else as_float(f)

    def __rfloordiv__(self, o):
        return SymNum.lift(o).__floordiv__(self)

    def __mod__(self, o):
        c = self._co(o)
        if c is None:
            return NotImplemented
        if not isinstance(c, SymNum) and not fin(c):
            raise Unsupported("mod inf")
        q = num_div(self, c)
        f = num_floor(q) if isinstance(q, SymNum) else math.floor(q)
        r = self - c * f
        if isinstance(r, SymNum) and self.isint and self._oint(c):
            r = SymNum(r.p, True, r.isnp)
        return r

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return SymNum.lift(o).__mod__(self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        o = SymNum.lift(o)
        return o // self, o % self

    def __pow__(self, o, mod=None):
        c = self._co(o)
        if c is None:
            if isinstance(o, _np.ndarray):
                return self._other(o, "__pow__")
            return NotImplemented
        if isinstance(c, SymNum):
            if c.isconst():
                c = c.cval()
            else:
                c = c.concretize()
        if c == 0:
            return 1 if self.isint else 1.0
        if c == 0.5:
            return num_sqrt(self)
        if c == -0.5:
            return num_div(1.0, num_sqrt(self))
        if frac(c).denominator != 1:
            if frac(c) * 2 == int(frac(c) * 2):
                return num_sqrt(self) ** int(frac(c) * 2)
            raise Unsupported("non-integer power")
        n = int(c)
        if n > 0:
            r = p_pow(self.p, n)
            return self._nn(self._res(r, c, self.isint and self._oint(c)), self.nn or n % 2 == 0)
        return num_div(1.0, self.__pow__(-n))

    def __rpow__(self, o):
        e = self.concretize()
        return o ** e

    def __abs__(self):
        return num_abs(self)

    # -- comparisons ----------------------------------------------------------------
    def _cmp(self, o, op):
        c = self._co(o)
        if c is None:
            if isinstance(o, _np.ndarray):
                from . import npshim

                return npshim.array_binop({"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__", "==": "__eq__", "!=": "__ne__"}[op], self, o)
            if isinstance(o, (complex, _np.complexfloating, SymComplex)) and op in ("==", "!="):
                o = SymComplex.lift(o)
                r = b_and(self == o.real, o.imag == 0)
                return r if op == "==" else b_not(r)
            return NotImplemented
        return num_cmp(self, c, op)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        r = self._cmp(o, "==")
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, "!=")
        return True if r is NotImplemented else r

    # -- conversions ----------------------------------------------------------------
    def concretize(self):
        if self.isconst():
            return tofloat(self.cval(), self.isint)
        return ctx().concretize(self)

    def __bool__(self):
        r = self != 0
        return bool(r)

    def __hash__(self):
        return hash(self.concretize())

    def __index__(self):
        if not self.isint:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self.concretize())

    def __int__(self):
        # reached from C code only (int() is overridden in the modules under test)
        return int(num_trunc(self).concretize() if isinstance(num_trunc(self), SymNum) else num_trunc(self))

    def __float__(self):
        if self.isconst():
            return float(self.cval())
        if ctx().opts.get("concretize_float"):
            return float(self.concretize())
        raise Unsupported("float() of a symbolic value in C code")

    def __trunc__(self):
        return num_trunc(self)

    def __floor__(self):
        return num_floor(self)

    def __ceil__(self):
        return -num_floor(-self)

    def __round__(self, n=None):
        return num_round(self, n)

    def is_integer(self):
        return num_floor(self) == self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<sym>"

    def __format__(self, spec):
        return "<sym>"

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conjugate(self):
        return self

    conj = conjugate

    # numpy scalar interface
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return SymNum(self.p, self.isint, False, self.nn)

    def astype(self, t):
        from . import npshim

        return npshim.cast_scalar(self, npshim.vd_of(t))

    def clip(self, lo=None, hi=None, **k):
        return num_clip(self, lo, hi)

    def sum(self, *a, **k):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim

        return npshim.ufunc_dispatch(ufunc, method, inputs, kw)

    # called by numpy's object loops
    def sqrt(self):
        return num_sqrt(self)

    def exp(self):
        return num_exp(self)

    def cos(self):
        return num_cos(self)

    def sin(self):
        return num_sin(self)


def as_float(x):
    if isinstance(x, SymNum):
        return SymNum(x.p, False, x.isnp, x.nn) if x.isint else x
    return float(x)


def sgn_known(x):
    """Sign of a SymNum if implied by the path condition: 1, -1, 0 (=zero) or None."""
    c = ctx()
    if c.implied((x > 0)):
        return 1
    if c.implied((x < 0)):
        return -1
    return None


def _is_np(a, b):
    return (a.isnp if isinstance(a, SymNum) else isinstance(a, _np.generic)) or (b.isnp if isinstance(b, SymNum) else isinstance(b, _np.generic))


def num_div(a, b):
    """a / b with Python semantics, or numpy semantics when an operand is a numpy scalar."""
    c = ctx()
    if isinstance(b, SymNum) and b.isconst():
        b2 = b.cval()
        if not b2:
            return _div_zero(a, _is_np(a, b))
        if isinstance(a, SymNum):
            return SymNum(p_scale(a.p, 1 / b2), False, _is_np(a, b), a.nn and b2 > 0)
        return a / float(b2)
    if not isinstance(b, SymNum):
        if not fin(b):
            return NAN if math.isnan(b) or not isinstance(a, SymNum) and not fin(a) else 0.0
        if b == 0:
            return _div_zero(a, _is_np(a, b))
        return SymNum(p_scale(a.p, 1 / frac(b)), False, _is_np(a, b), a.nn and b > 0)
    # symbolic denominator
    if c.branch_b(b == 0):
        return _div_zero(a, _is_np(a, b))
    if not isinstance(a, SymNum):
        if not fin(a):
            if math.isnan(a):
                return NAN
            return a if bool(b > 0) else -a
        a = SymNum(p_const(frac(a)))
    q = p_divexact(c, a.p, b.p)
    if q is not None:
        return SymNum(q, False, _is_np(a, b), a.nn and isinstance(b, SymNum) and b.nn)
    return SymNum(p_mul(a.p, c.p_inv(b.p)), False, _is_np(a, b), a.nn and isinstance(b, SymNum) and b.nn)


def _div_zero(a, isnp):
    if not isnp:
        raise ZeroDivisionError("division by zero")
    if isinstance(a, SymNum):
        if bool(a == 0):
            return NAN
        return INF if bool(a > 0) else -INF
    if a == 0 or math.isnan(a):
        return NAN
    return INF if a > 0 else -INF


def num_cmp(a, b, op):
    """Comparison of a SymNum with a SymNum or a concrete number."""
    c = ctx()
    if not isinstance(b, SymNum):
        if isinstance(b, float) or isinstance(b, _np.floating):
            if math.isnan(b):
                return op == "!="
            if math.isinf(b):
                pos = b > 0
                return {"<": pos, "<=": pos, ">": not pos, ">=": not pos, "==": False, "!=": True}[op]
        if a.nn and op in ("<", ">=") and b <= 0:
            return op == ">="
        d = p_add(a.p, p_const(-frac(b)))
    else:
        d = p_sub(a.p, b.p)
    if p_is_const(d):
        v = p_cval(d)
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
    if op not in ("==", "!="):
        if op in ("<", ">="):
            if p_nonneg(c, d):
                return op == ">="
        elif p_nonneg(c, p_neg(d)):
            return op == "<="
        lo, hi = p_interval(c, d)
        if lo is not None and lo >= 0:
            if lo > 0 or op in ("<", ">="):
                return op in (">", ">=")
        if hi is not None and hi <= 0:
            if hi < 0 or op in (">", "<="):
                return op in ("<", "<=")
        r = cmp_parts(c, d, op, 0) if c.opts.get("mm_split", True) else None
        if r is not None:
            return r
    return mkbool(c.cmp_z3(d, op))


def p_nonneg(c, p):
    """Certainly not negative: positive coefficients times factors that are not negative."""
    for m, k in p.items():
        if k < 0:
            return False
        for i, e in m:
            if e % 2 == 0:
                continue
            b = c.bounds.get(i)
            if b is not None:
                if b[0] < 0:
                    return False
                continue
            a = c.atoms[i]
            if a.nn is None:
                if a.kind in ("abs", "sqrt"):
                    a.nn = True
                elif a.kind == "ite":
                    A, B = (p_nonneg(c, q.p) for q in a.data[1:])
                    a.nn = A and B or a.mm == 1 and (A or B)
                else:
                    a.nn = False
            if not a.nn:
                return False
    return True


def p_divexact(c, a, b):
    """a / b if that is a polynomial (division along an atom with constant leading coefficient in b)."""
    if len(b) < 2 or len(b) > 6:
        return None
    for m in b:
        if len(m) == 1 and m[0][1] > 0 and m[0][0] not in c.special:
            i, n = m[0]
            if all(dict(q).get(i, 0) < n for q in b if q != m):
                break
    else:
        return None
    lead = b[m]
    out, rest = {}, dict(a)
    for _ in range(60):
        if not rest:
            return out
        e = max(dict(q).get(i, 0) for q in rest)
        if e < n:
            return None
        t = {}
        for q, k in rest.items():
            if dict(q).get(i, 0) == e:
                t[m_mul(q, ((i, -n),))] = k / lead
        out = p_add(out, t)
        rest = p_sub(rest, p_mul(t, b))
    return None


def p_interval(c, p):
    """Bounds of a polynomial from the bounds of its atoms (None: unknown)."""
    lo = hi = Fraction(0)
    for m, k in p.items():
        a, b = Fraction(1), Fraction(1)
        for i, e in m:
            x, y = a_interval(c, i)
            if e < 0:
                if x is not None and x > 0:
                    x, y = (1 / y if y is not None else Fraction(0)), 1 / x
                elif y is not None and y < 0:
                    x, y = 1 / y, (1 / x if x is not None else Fraction(0))
                else:
                    x = y = None
                    if e % 2 == 0:
                        x = Fraction(0)
            n = abs(e)
            if n > 1:
                if n % 2 == 0:
                    big = None if x is None or y is None else max(abs(x), abs(y)) ** n
                    small = Fraction(0)
                    if x is not None and x > 0:
                        small = x ** n
                    elif y is not None and y < 0:
                        small = y ** n
                    x, y = small, big
                else:
                    x, y = None if x is None else x ** n, None if y is None else y ** n
            a, b = i_mul(a, b, x, y)
            if a is None and b is None:
                break
        if k < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + k * a
        hi = None if hi is None or b is None else hi + k * b
        if lo is None and hi is None:
            return None, None
    return lo, hi


def i_mul(a, b, x, y):
    if None not in (a, b, x, y):
        v = (a * x, a * y, b * x, b * y)
        return min(v), max(v)
    if a is not None and a >= 0 and x is not None and x >= 0:
        return a * x, None if b is None or y is None else b * y
    if b is not None and b <= 0 and x is not None and x >= 0:
        return None if a is None or y is None else a * y, b * x
    if a is not None and a >= 0 and y is not None and y <= 0:
        return None if b is None or x is None else b * x, a * y
    return None, None


def a_interval(c, i):
    b = c.bounds.get(i)
    if b is not None:
        return b
    a = c.atoms[i]
    if a.iv is None:
        a.iv = (None, None)
        if a.kind in ("cos", "sin"):
            a.iv = (Fraction(-1), Fraction(1)) if c.opts.get("trig_box", True) else (None, None)
        elif a.kind == "abs":
            x, y = p_interval(c, a.data)
            a.iv = (Fraction(0) if x is None or x < 0 and (y is None or y > 0) else min(abs(x), abs(y)) if y is not None else x, None if x is None or y is None else max(abs(x), abs(y)))
        elif a.kind == "sqrt":
            a.iv = (Fraction(0), None)
        elif a.kind == "den":
            a.iv = p_interval(c, a.data)
        elif a.kind == "ite":
            (x, y), (u, v) = (p_interval(c, q.p) for q in a.data[1:])
            f = lambda g, r, t: None if r is None or t is None else g(r, t)
            if a.mm == 1:
                lo = u if x is None else x if u is None else max(x, u)
                a.iv = (lo, f(max, y, v))
            elif a.mm == -1:
                hi = v if y is None else y if v is None else min(y, v)
                a.iv = (f(min, x, u), hi)
            else:
                a.iv = (f(min, x, u), f(max, y, v))
    return a.iv


def p_root(p):
    """A polynomial with square p, if found among the signed sums of roots of its square terms."""
    if len(p) > 6:
        return None
    roots = []
    for m, k in p.items():
        if k > 0 and not any(e % 2 for _, e in m):
            n, d = math.isqrt(k.numerator), math.isqrt(k.denominator)
            if n * n == k.numerator and d * d == k.denominator:
                roots.append((tuple((i, e // 2) for i, e in m), Fraction(n, d)))
    if not 2 <= len(roots) <= 3:
        return None
    for bits in range(2 ** (len(roots) - 1)):
        q = {m: (-k if bits >> j & 1 else k) for j, (m, k) in enumerate(roots)}
        if p_mul(q, q) == p:
            return q
    return None


def cmp_parts(c, d, op, depth):
    """max(a, b) <= y as a <= y and b <= y, |a| <= y as a <= y and -a <= y, and so on; None if not of this shape."""
    hit = None
    for m, k in d.items():
        for i, e in m:
            a = c.atoms[i]
            if a.kind == "abs" or a.kind == "ite" and a.mm:
                if len(m) > 1 or e != 1 or hit is not None:
                    return None
                hit = (m, k, a)
    if hit is None or depth > 40:
        return None
    m, k, a = hit
    rest = {n: v for n, v in d.items() if n != m}
    up = a.kind == "abs" or a.mm > 0
    arms = (a.data, p_neg(a.data)) if a.kind == "abs" else (a.data[1].p, a.data[2].p)
    out = []
    for q in arms:
        e = p_add(rest, p_scale(q, k))
        if p_is_const(e):
            v = p_cval(e)
            out.append({"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op])
            continue
        r = cmp_parts(c, e, op, depth + 1)
        out.append(mkbool(c.cmp_z3(e, op)) if r is None else r)
    return (b_and if (up == (k > 0)) == (op in ("<", "<=")) else b_or)(*out)


def ite(cond, a, b):
    """If-then-else of two scalars."""
    cond = _truthy(cond)
    if cond is True:
        return a
    if cond is False:
        return b
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        return mkbool(z3.simplify(z3.If(cond.z, zb(a), zb(b))))
    if isinstance(a, (SymComplex, complex, _np.complexfloating)) or isinstance(b, (SymComplex, complex, _np.complexfloating)):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(ite(cond, a.real, b.real), ite(cond, a.imag, b.imag))
    if not (isnum(a) or isinstance(a, SymNum)) or not (isnum(b) or isinstance(b, SymNum)):
        return a if bool(cond) else b
    if (not isinstance(a, SymNum) and not fin(a)) or (not isinstance(b, SymNum) and not fin(b)):
        if not isinstance(a, SymNum) and not isinstance(b, SymNum) and (a == b):
            return a
        return a if bool(cond) else b
    A, B = SymNum.lift(a), SymNum.lift(b)
    if A.p == B.p:
        return a
    isint = A.isint and B.isint
    at = ctx().ite_atom(cond.z, A, B)
    return SymNum({((at.id, 1),): Fraction(1)}, isint, A.isnp or B.isnp, _isnn(A) and _isnn(B))


def _isnn(x):
    return x.nn or x.isconst() and x.cval() >= 0



# -- merged conditionals (used by the source transformation of the loader) --------------
class SpecAbort(Exception):
    """A decision would be needed: the conditional is not merged."""


def cond_not(c):
    if isinstance(c, SymBool):
        return b_not(c)
    return not c


def cond_value(c, a, b):
    r = cond_values(c, lambda: (a(),), lambda: (b(),))
    if r is None:
        return a() if c else b()
    return r[0]


def cond_values(c, a, b):
    """The values of a conditional whose condition is symbolic and undecided, merged component-wise; None: branch instead."""
    if isinstance(c, SymArrayLike) and getattr(c, "size", 0) == 1:
        c = c.reshape(-1)[0]
    if not isinstance(c, SymBool):
        return None
    x = ctx()
    if x.dead or not x.opts.get("merge", True):
        return None
    z = c.z
    neg = z3.Not(z) if not z3.is_not(z) else z.arg(0)
    if z.get_id() in x.pcset or neg.get_id() in x.pcset:
        return None
    old, x.spec = x.spec, True
    n, w = len(x.pc), x.pos
    try:
        va, vb = a(), b()
        r = tuple(merge_value(c, p, q) for p, q in zip(va, vb))
    except Exception:
        return None
    finally:
        x.spec = old
    if x.pos != w:
        raise Unsupported("decision in a merged conditional")
    if old:  # inside another merged conditional
        return r
    # decide as branch() does, but keep both sides when both are possible
    if x.pos < len(x.prefix):
        v = x.prefix[x.pos]
    else:
        x.stats.branches += 1
        v = False if x.sat3(z) == z3.unsat else True if x.sat3(neg) == z3.unsat else "m"
    x.pos += 1
    x.trace.append(v)
    if v == "m":
        return r
    x.add(z if v else neg)
    return va if v else vb


SymArrayLike = _np.ndarray


def merge_value(c, a, b):
    if a is b:
        return a
    if isinstance(a, _np.ndarray) and a.ndim == 0:
        a = a[()]
    if isinstance(b, _np.ndarray) and b.ndim == 0:
        b = b[()]
    if isinstance(a, (SymBool, bool, _np.bool_)) and isinstance(b, (SymBool, bool, _np.bool_)):
        return ite(c, a, b)
    if isinstance(a, (SymComplex, complex, _np.complexfloating)) or isinstance(b, (SymComplex, complex, _np.complexfloating)):
        a, b = SymComplex.lift(a), SymComplex.lift(b)
        return SymComplex(merge_value(c, a.real, b.real), merge_value(c, a.imag, b.imag))
    for v in (a, b):
        if isinstance(v, bool) or not (isinstance(v, SymNum) or isnum(v) and fin(v)):
            raise SpecAbort()
    A, B = SymNum.lift(a), SymNum.lift(b)
    if A.isint != B.isint and not (A.isconst() or B.isconst()):
        raise SpecAbort()
    if A.p == B.p:
        return a if isinstance(a, SymNum) else b
    if A.p == p_neg(B.p) and not A.isconst():
        return ite(c, 1.0, -1.0) * A
    D = A - B
    for big in (True, False):
        for g in ((D >= 0, D > 0) if big else (D <= 0, D < 0)):
            if isinstance(g, SymBool) and g.z.get_id() == c.z.get_id():
                return B + (num_max if big else num_min)(0.0, D)
    return ite(c, A, B)


def num_max(a, b):
    return _minmax(a, b, True)


def num_min(a, b):
    return _minmax(a, b, False)


def _minmax(a, b, mx):
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, (SymNum, SymBool)):
            if isinstance(x, (float, _np.floating)) and math.isnan(x):
                return NAN
            if not fin(x):
                if (x > 0) == mx:
                    return x if not isinstance(y, float) or not math.isnan(y) else NAN
                return y
    if not isinstance(a, SymNum) and not isinstance(b, SymNum):
        return (max if mx else min)(a, b)
    A, B = SymNum.lift(a), SymNum.lift(b)
    g = A >= B if mx else A <= B
    if g is True:
        return a
    if g is False:
        return b
    c = ctx()
    if A.p == p_neg(B.p):  # max(x, -x)
        r = num_abs(A)
        return r if mx else -r
    r = ite(g, A, B)
    if isinstance(r, SymNum) and len(r.p) == 1:
        (m, k), = r.p.items()
        if k == 1 and len(m) == 1 and m[0][1] == 1 and c.atoms[m[0][0]].kind == "ite":
            at = c.atoms[m[0][0]]
            if {p_key(at.data[1].p), p_key(at.data[2].p)} == {p_key(A.p), p_key(B.p)} and at.data[0].get_id() == g.z.get_id():
                at.mm, at.nn = 1 if mx else -1, None
    return r


def num_abs(x):
    if isinstance(x, SymComplex):
        return abs(x)
    if not isinstance(x, SymNum):
        return abs(x)
    if x.isconst():
        return SymNum(p_const(abs(x.cval())), x.isint, x.isnp)
    # canonical sign so that |x| and |-x| are the same atom
    p = x.p
    c = ctx()
    lo, hi = p_interval(c, p)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return -x
    if p[min(p)] < 0:
        p = p_neg(p)
    at = c.abs_atom(p, x.isint)
    if at is None:  # sign known
        return SymNum(c.abs_known[p_key(p)], x.isint, x.isnp)
    return SymNum({((at.id, 1),): Fraction(1)}, x.isint, x.isnp)


def num_sign(x):
    if isinstance(x, SymComplex):
        raise Unsupported("sign of complex")
    if not isinstance(x, SymNum):
        return _np.sign(x)
    one, zero, mone = SymNum.const(1, x.isint), SymNum.const(0, x.isint), SymNum.const(-1, x.isint)
    return ite(x > 0, one, ite(x == 0, zero, mone))


def num_clip(x, lo, hi):
    if lo is not None:
        x = num_max(x, lo)
    if hi is not None:
        x = num_min(x, hi)
    return x


def num_floor(x):
    if not isinstance(x, SymNum):
        return math.floor(x)
    if x.isint:
        return x
    if x.isconst():
        return math.floor(x.cval())
    c = ctx()
    ip = c.int_part(x.p)
    if ip is not None:
        return SymNum(ip, True)
    at = c.floor_atom(x.p)
    return SymNum({((at.id, 1),): Fraction(1)}, True)


def num_trunc(x):
    if isinstance(x, SymComplex):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'complex'")
    if not isinstance(x, SymNum):
        return int(x)
    if x.isint:
        return SymNum(x.p, True, False)
    if x.isconst():
        return int(x.cval())
    f = num_floor(x)
    if isinstance(f, SymNum) and f.p == x.p:
        return f
    return ite(x >= 0, f, -num_floor(-x))


def num_round(x, n=None):
    if not isinstance(x, SymNum):
        return round(x, n) if n is not None else round(x)
    if x.isint and (n is None or n >= 0):
        return x
    k = 1 if not n else 10 ** n
    y = x * k
    f = num_floor(y)
    if isinstance(f, SymNum) and f.p == y.p:
        r = f
    else:
        d = y - f
        half = Fraction(1, 2)
        even = (f % 2) == 0 if isinstance(f, SymNum) else (f % 2 == 0)
        r = ite(b_or(d < half, b_and(d == half, even)), f, f + 1)
    if n is None:
        return r
    return r / k


def num_sqrt(x):
    if isinstance(x, SymComplex):
        raise Unsupported("sqrt of complex")
    if not isinstance(x, SymNum):
        return math.sqrt(x) if x >= 0 else NAN
    if x.isconst():
        return float(math.sqrt(x.cval())) if x.cval() >= 0 else NAN
    c = ctx()
    r = p_root(x.p)
    if r is not None:
        return num_abs(SymNum(r, False, x.isnp))
    if not x.nn and not c.sos(x.p) and c.branch_b(x < 0):
        return NAN
    r = c.mono_sqrt(x.p)
    if r is not None:
        return num_abs(SymNum(r, False, x.isnp))
    at = c.sqrt_atom(x.p)
    return SymNum({((at.id, 1),): Fraction(1)}, False, True, True)


def num_exp(x):
    if isinstance(x, SymComplex):
        re = x.real
        if isinstance(re, SymNum) and re.isconst():
            re = re.cval()
        if isinstance(re, SymNum):
            raise Unsupported("exp of symbolic real part")
        m = math.exp(re)
        c, s = num_cos(x.imag), num_sin(x.imag)
        return SymComplex(c * m if m != 1 else c, s * m if m != 1 else s)
    if not isinstance(x, SymNum):
        return _np.exp(x)
    raise Unsupported("exp of symbolic real")


def num_cos(x):
    if not isinstance(x, SymNum):
        return math.cos(x) if fin(x) else NAN
    if x.isconst():
        return math.cos(x.cval())
    c, s, sg = ctx().trig(x.p)
    return SymNum({((c.id, 1),): Fraction(1)}, False, True)


def num_sin(x):
    if not isinstance(x, SymNum):
        return math.sin(x) if fin(x) else NAN
    if x.isconst():
        return math.sin(x.cval())
    c, s, sg = ctx().trig(x.p)
    return SymNum({((s.id, 1),): Fraction(sg)}, False, True)


def num_angle(re, im):
    """Angle of re + j im (uninterpreted on the symbolic part)."""
    if not isinstance(re, SymNum) and not isinstance(im, SymNum):
        return math.atan2(im, re)
    re, im = SymNum.lift(re), SymNum.lift(im)
    if re.isconst() and im.isconst():
        return math.atan2(im.cval(), re.cval())
    # re = q cos(t), im = q sin(t) with q > 0 and |t| <= pi
    c = ctx()
    key = ("arg", r_key(re.p), r_key(im.p))
    if key not in c.bykey:
        c.bykey[key] = _num_angle(c, re, im)
    return c.bykey[key]


def _num_angle(c, re, im):
    if re.p and im.p:
        for t, ca, sa in c.trigs:
            q = p_div_atom(re.p, ca.id)
            if q is None:
                continue
            w = p_div_atom(im.p, sa.id)
            if w is None or (w != q and p_neg(w) != q):
                continue
            t = SymNum(t, False, True)
            if w != q:
                t = -t
            lim = Fraction(repr(math.pi))
            if c.implied(SymNum(q) > 0) is True and c.implied(b_and(t <= lim, t >= -lim)) is True:
                return t
    at = c.angle_atom(re.p, im.p)
    return SymNum({((at.id, 1),): Fraction(1)}, False, True)


def p_div_atom(p, i):
    """p divided by atom i when i occurs in every monomial with exponent 1."""
    out = {}
    for m, k in p.items():
        r = tuple(x for x in m if x != (i, 1))
        if len(r) == len(m):
            return None
        out[r] = k
    return out


def simp(x):
    """Constant-fold a scalar."""
    if isinstance(x, SymNum) and x.isconst():
        v = x.cval()
        if x.isint and v.denominator == 1:
            return int(v)
        return float(v)
    return x


class SymComplex(object):
    __slots__ = ("real", "imag")

    def __init__(self, re, im):
        self.real, self.imag = re, im

    @staticmethod
    def lift(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, (complex, _np.complexfloating)):
            return SymComplex(float(x.real), float(x.imag))
        if isinstance(x, SymBool):
            return SymComplex(x.num(), 0)
        return SymComplex(x, 0)

    @staticmethod
    def _ok(o):
        return isinstance(o, (SymNum, SymComplex, SymBool, int, float, complex, Fraction, _np.number, _np.bool_))

    def _arr(self, o, name):
        if isinstance(o, _np.ndarray):
            from . import npshim

            return npshim.array_binop(name, self, o)
        return NotImplemented

    def __add__(self, o):
        if not self._ok(o):
            return self._arr(o, "__add__")
        o = SymComplex.lift(o)
        return SymComplex(self.real + o.real, self.imag + o.imag)

    __radd__ = __add__

    def __sub__(self, o):
        if not self._ok(o):
            return self._arr(o, "__sub__")
        o = SymComplex.lift(o)
        return SymComplex(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        if not self._ok(o):
            return self._arr(o, "__rsub__")
        return SymComplex.lift(o) - self

    def __mul__(self, o):
        if not self._ok(o):
            return self._arr(o, "__mul__")
        if not isinstance(o, (SymComplex, complex, _np.complexfloating)):
            return SymComplex(m0(self.real, o), m0(self.imag, o))
        o = SymComplex.lift(o)
        return SymComplex(m0(self.real, o.real) - m0(self.imag, o.imag), m0(self.real, o.imag) + m0(self.imag, o.real))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not self._ok(o):
            return self._arr(o, "__truediv__")
        if not isinstance(o, (SymComplex, complex, _np.complexfloating)):
            return SymComplex(sdiv(self.real, o), sdiv(self.imag, o))
        o = SymComplex.lift(o)
        d = m0(o.real, o.real) + m0(o.imag, o.imag)
        n = self * o.conjugate()
        return SymComplex(sdiv(n.real, d), sdiv(n.imag, d))

    def __rtruediv__(self, o):
        if not self._ok(o):
            return self._arr(o, "__rtruediv__")
        return SymComplex.lift(o) / self

    def __neg__(self):
        return SymComplex(-self.real, -self.imag)

    def __pos__(self):
        return self

    def __pow__(self, n):
        n = n.concretize() if isinstance(n, SymNum) else n
        if int(n) != n:
            raise Unsupported("complex power")
        r = SymComplex(1, 0)
        for _ in range(abs(int(n))):
            r = r * self
        return r if n >= 0 else 1 / r

    def conjugate(self):
        return SymComplex(self.real, -self.imag)

    conj = conjugate

    def __abs__(self):
        re, im = simp(self.real), simp(self.imag)
        if not isinstance(re, SymNum) and not isinstance(im, SymNum):
            return math.hypot(re, im)
        if not isinstance(im, SymNum) and im == 0:
            return num_abs(re)
        if not isinstance(re, SymNum) and re == 0:
            return num_abs(im)
        for q in (re, im):
            if not isinstance(q, SymNum) and not fin(q):
                return abs(q)
        d = m0(re, re) + m0(im, im)
        return num_sqrt(d) if isinstance(d, SymNum) else math.sqrt(d)

    def __eq__(self, o):
        if isinstance(o, _np.ndarray):
            return self._arr(o, "__eq__")
        if not self._ok(o):
            return False
        o = SymComplex.lift(o)
        return b_and(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        if isinstance(o, _np.ndarray):
            return self._arr(o, "__ne__")
        return b_not(self.__eq__(o))

    def __lt__(self, o):
        raise TypeError("'<' not supported between instances of 'complex' and 'complex'")

    __gt__ = __le__ = __ge__ = __lt__

    def __bool__(self):
        return bool(b_or(self.real != 0, self.imag != 0))

    def __hash__(self):
        raise Unsupported("hash of complex")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<symcomplex>"

    def __format__(self, spec):
        return "<symcomplex>"

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim

        return npshim.ufunc_dispatch(ufunc, method, inputs, kw)

    def exp(self):
        return num_exp(self)


def m0(a, b):
    """a*b where a concrete finite zero absorbs symbolic operands."""
    if not isinstance(a, SymNum) and isinstance(b, SymNum) and a == 0:
        return 0
    if not isinstance(b, SymNum) and isinstance(a, SymNum) and b == 0:
        return 0
    return a * b


def sdiv(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return num_div(a, b)
    if b == 0:
        if isinstance(a, _np.generic) or isinstance(b, _np.generic):
            return _div_zero(a, True)
        raise ZeroDivisionError("complex division by zero")
    return a / b


# --------------------------------------------------------------------------------------
# path context
# --------------------------------------------------------------------------------------
class Stats(object):
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.branches = 0
        self.paths = 0
        self.infeasible = 0
        self.funcs = set()

    def add(self, o):
        for k in ("queries", "solver_s", "sat", "unsat", "unknown", "branches", "paths", "infeasible"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.funcs |= o.funcs


def z3vars(e, cache):
    """Set of names of the uninterpreted constants of a z3 expression."""
    i = e.get_id()
    r = cache.get(i)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [e]
    while st:
        x = st.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            st.extend(x.children())
    cache[i] = (e, out)
    return out


# -- linear abstraction -------------------------------------------------------------------
# Every non-linear monomial becomes a fresh real variable (the same for the same monomial), so that
# an unsatisfiable abstraction proves the constraints unsatisfiable by linear reasoning alone.
_LIN = {}
_MON = {}


def linz(e):
    """(abstraction, non-linear?, axioms) of a z3 expression; axioms: squares are not negative."""
    r = _LIN.get(e.get_id())
    if r is not None:
        return r[1:]
    if len(_LIN) > 400000:
        _LIN.clear()
        _MON.clear()
        _MONF.clear()
    st = [(e, False)]
    while st:
        x, done = st.pop()
        k = x.get_id()
        if k in _LIN:
            continue
        ch = x.children()
        if not ch:
            _LIN[k] = (x, x, False, ())
            continue
        if not done:
            st.append((x, True))
            st.extend((c, False) for c in ch if c.get_id() not in _LIN)
            continue
        rs = [_LIN[c.get_id()] for c in ch]
        nl = any(q[2] for q in rs)
        ax = ()
        for q in rs:
            if q[3]:
                ax = tuple(dict.fromkeys(ax + q[3])) if ax else q[3]
        d = x.decl().kind()
        if d in (z3.Z3_OP_MUL, z3.Z3_OP_POWER, z3.Z3_OP_DIV):
            num, fac = [], []
            for q in rs:
                y = q[1]
                (num if z3.is_rational_value(y) or z3.is_int_value(y) else fac).append(y)
            lin = len(fac) <= 1 and d == z3.Z3_OP_MUL or d == z3.Z3_OP_DIV and len(num) == 1 and z3.is_rational_value(rs[1][1])
            if lin:
                y = x if not nl else (x.decl()(*[q[1] for q in rs]))
            else:
                key = (d, tuple(sorted(f.get_id() for f in fac))) if d == z3.Z3_OP_MUL else (d, tuple(q[1].get_id() for q in rs))
                m = _MON.get(key)
                if m is None:
                    m = (z3.Real("mon!%d" % len(_MON)), [q[1] for q in rs])
                    _MON[key] = m
                y = m[0]
                if d == z3.Z3_OP_MUL:
                    ids = key[1]
                    if all(ids.count(i) % 2 == 0 for i in set(ids)):
                        ax = ax + (y >= 0,)
                    for c in num:
                        y = c * y
                nl = True
        elif nl:
            y = x.decl()(*[q[1] for q in rs])
        else:
            y = x
        _LIN[k] = (x, y, nl, ax)
    return _LIN[e.get_id()][1:]


def mon_bounds(ys, bound):
    """Bounds of the products that occur in abstracted constraints; bound(name) of a plain symbol or None."""
    cache, out, seen = {}, [], set()
    vs = set()
    for y in ys:
        vs |= z3vars(y, cache)
    if len(_MONF) < len(_MON):
        for d, (m, fac) in list(_MON.items())[len(_MONF):]:
            _MONF[m.decl().name()] = (d[0], m, fac)
    for i in vs:
        ent = _MONF.get(i)
        if ent is None or ent[0] != z3.Z3_OP_MUL:
            continue
        b = Fraction(1)
        for f in ent[2]:
            if z3.is_rational_value(f) or z3.is_int_value(f):
                continue
            if z3.is_to_real(f):
                f = f.arg(0)
            k = bound(f.decl().name()) if f.num_args() == 0 else None
            if k is None:
                b = None
                break
            b *= k
        if b is not None:
            out.append(z3.And(ent[1] <= z3.RealVal(b), ent[1] >= z3.RealVal(-b)))
    return out


_MONF = {}


class Ctx(object):
    """State of one path."""

    def __init__(self, prefix, stats, opts):
        self.prefix = prefix
        self.pos = 0
        self.new_prefixes = []
        self.trace = []
        self.stats = stats
        self.opts = opts
        self.pc = []          # z3 constraints
        self.pcset = set()
        self.nonlin = set()   # ids of non-linear constraints
        self.axset = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", opts.get("branch_ms", 700))
        self.solver.set("random_seed", opts.get("seed", 0) % 1000)
        self.full = z3.Solver()
        self.full.set("random_seed", opts.get("seed", 0) % 1000)
        self.nfull = 0
        self.atoms = []
        self.special = {}     # atom id -> predicate(exponent) needing reduction
        self.bykey = {}
        self.spec = False
        self.invars = {}
        self.abs_known = {}
        self.inputs = {}      # name -> z3 const of harness inputs
        self.choices = {}     # name -> concrete choice index
        self.counter = {}
        self.varcache = {}
        self.negknown = {}
        self.dead = None
        self.problems = []    # optimisation problems solved on this path
        self.stub_calls = {}
        self.incomplete = []
        self.keep = []        # keeps the identifiers of split constraints taken
        self.bounds = {}      # atom id -> (lo, hi) of bounded atoms
        self.prefs = []       # soft preferences for models
        self.alts = []        # conditions tried first when looking for counterexamples
        self.assumed = False
        self.unsupported = None
        self.trigs = []

    # -- atoms ----------------------------------------------------------------------
    def new_atom(self, name, kind, isint=False, z=None, data=None, sq=None):
        a = Atom(len(self.atoms), name, kind, isint, z, data, sq)
        if z is None:
            a.z = z3.Int(name) if isint else z3.Real(name)
        self.atoms.append(a)
        return a

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s!%d" % (base, n)

    def var(self, name, isint=False, isnp=False):
        a = self.new_atom(name, "var", isint)
        return SymNum({((a.id, 1),): Fraction(1)}, isint, isnp)

    def fresh(self, base, isint=False, isnp=True):
        return self.var(self.fresh_name(base), isint, isnp)

    def atom_z(self, a):
        """Real-sorted z3 term of an atom."""
        return z3.ToReal(a.z) if a.isint else a.z

    def inv_z(self, a):
        """z3 constant for 1/atom."""
        v = self.invars.get(a.id)
        if v is None:
            v = z3.Real("inv!%d" % a.id)
            self.invars[a.id] = v
            self.add(self.atom_z(a) * v == 1)
        return v

    def poly_z3(self, p):
        terms = []
        for m, c in sorted(p.items()):
            f = []
            for i, e in m:
                a = self.atoms[i]
                t = self.atom_z(a) if e > 0 else self.inv_z(a)
                f.extend([t] * abs(e))
            t = z3.RealVal(c) if not f else f[0] if len(f) == 1 else z3.Product(f)
            if c != 1 and f:
                t = z3.RealVal(c) * t
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def cmp_z3(self, d, op):
        """z3 comparison d op 0, normalised."""
        lead = d[max(d)]
        if op in ("==", "!="):
            d = p_scale(d, 1 / lead)
            t = self._lin(d) == 0 if True else None
            return t if op == "==" else z3.Not(t)
        k = 1 / abs(lead)
        d = p_scale(d, k)
        # canonical direction: positive leading coefficient
        if d[max(d)] < 0:
            d = p_neg(d)
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[op]
        z = self._lin(d)
        if op == "<":
            return z3.Not(z >= 0)
        if op == "<=":
            return z <= 0
        if op == ">":
            return z3.Not(z <= 0)
        return z >= 0

    def _lin(self, d):
        k = p_key(d)
        r = self.bykey.get(("z", k))
        if r is None:
            r = self.poly_z3(d)
            self.bykey[("z", k)] = r
        return r

    def reduce_monomial(self, m):
        """Apply the rewriting rules of special atoms."""
        rest = []
        out = None
        for i, e in m:
            a = self.atoms[i]
            sp = self.special.get(i)
            if out is None and sp is not None and sp(e):
                if a.kind == "den":           # den^k, k>0 -> its definition
                    out = p_pow(a.data, e)
                elif e >= 2:
                    k, r = divmod(e, 2)
                    out = p_pow(a.sq, k)
                    if r:
                        rest.append((i, r))
                else:                          # e <= -2
                    k, r = divmod(-e, 2)
                    out = p_pow(self.p_inv(a.sq), k)
                    if r:
                        rest.append((i, -r))
            else:
                rest.append((i, e))
        if out is None:
            return {m: Fraction(1)}
        return p_mul({tuple(rest): Fraction(1)}, out)

    def _special_sq(self, a):
        single = len(a.sq) == 1
        self.special[a.id] = (lambda e: e >= 2 or e <= -2)

    def p_inv(self, p):
        """Inverse of a polynomial known to be non-zero."""
        if len(p) == 1:
            (m, c), = p.items()
            inv = tuple((i, -e) for i, e in m)
            r = {inv: 1 / c}
            if any(i in self.special and self.special[i](e) for i, e in inv):
                return p_scale(self.reduce_monomial(inv), 1 / c)
            return r
        lead = p[max(p)]
        q = p_scale(p, 1 / lead)
        k = ("den", p_key(q))
        a = self.bykey.get(k)
        if a is None:
            a = self.new_atom(self.fresh_name("den"), "den", False, None, q)
            a.z = self.poly_z3(q)
            self.bykey[k] = a
            self.special[a.id] = lambda e: e >= 1
        return {((a.id, -1),): 1 / lead}

    def ite_atom(self, cond, A, B):
        k = ("ite", cond.get_id(), p_key(A.p), p_key(B.p))
        a = self.bykey.get(k)
        if a is None:
            a = self.new_atom(self.fresh_name("ite"), "ite", False, z3.If(cond, A.z, B.z), (cond, A, B))
            self.bykey[k] = a
        return a

    def abs_atom(self, p, isint):
        k = ("abs", p_key(p))
        a = self.bykey.get(k)
        if a is None:
            if k[1] in self.abs_known:
                return None
            x = SymNum(p)
            s = None
            if len(p) == 1:
                s = sgn_known(x)
            if s is not None:
                self.abs_known[k[1]] = p if s > 0 else p_neg(p)
                return None
            z = self.poly_z3(p)
            a = self.new_atom(self.fresh_name("abs"), "abs", False, z3.If(z >= 0, z, -z), p, p_mul(p, p))
            self.bykey[k] = a
            self.special[a.id] = lambda e: e >= 2 or e <= -2
        return a

    def int_part(self, p):
        """p itself if it is integer-valued by construction."""
        for m, c in p.items():
            if c.denominator != 1:
                return None
            for i, e in m:
                if not self.atoms[i].isint or e < 0:
                    return None
        return p

    def floor_atom(self, p):
        k = ("floor", p_key(p))
        a = self.bykey.get(k)
        if a is None:
            z = self.poly_z3(p)
            a = self.new_atom(self.fresh_name("floor"), "floor", True, None, p)
            self.bykey[k] = a
            r = z3.ToReal(a.z)
            self.add(r <= z)
            self.add(z < r + 1)
        return a

    def sqrt_atom(self, p):
        k = ("sqrt", p_key(p))
        a = self.bykey.get(k)
        if a is None:
            a = self.new_atom(self.fresh_name("sqrt"), "sqrt", False, None, p, p)
            self.bykey[k] = a
            self.special[a.id] = lambda e: e >= 2 or e <= -2
            self.add(a.z >= 0)
            self.add(a.z * a.z == self.poly_z3(p))
        return a

    def sos(self, p):
        """Syntactic sum of squares."""
        for m, c in p.items():
            if c < 0 or any(e % 2 for _, e in m):
                return False
        return True

    def mono_sqrt(self, p):
        if len(p) != 1:
            return None
        (m, c), = p.items()
        if any(e % 2 for _, e in m):
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n != c.numerator or d * d != c.denominator:
            return None
        return {tuple((i, e // 2) for i, e in m): Fraction(n, d)}

    def trig(self, p):
        sg = 1
        if p[min(p)] < 0:
            p = p_neg(p)
            sg = -1
        k = ("trig", r_key(p))
        r = self.bykey.get(k)
        if r is None:
            c = self.new_atom(self.fresh_name("cos"), "cos", False, None, p)
            s = self.new_atom(self.fresh_name("sin"), "sin", False, None, p)
            s.sq = p_sub(p_const(1), {((c.id, 2),): Fraction(1)})
            self.special[s.id] = lambda e: e >= 2
            self.add(c.z * c.z + s.z * s.z == 1)
            if self.opts.get("trig_box", True):
                for t in (c.z, s.z):
                    self.add(z3.And(t >= -1, t <= 1))
            self.trigs.append((p, c, s))
            r = (c, s)
            self.bykey[k] = r
        return r[0], r[1], sg

    def canon(self, name):
        """A fixed symbol, the same at every call."""
        r = self.bykey.get(("canon", name))
        if r is None:
            r = self.bykey[("canon", name)] = self.fresh(name)
        return r

    def angle_atom(self, re, im):
        k = ("angle", r_key(re), r_key(im))
        a = self.bykey.get(k)
        if a is None:
            a = self.new_atom(self.fresh_name("angle"), "angle", False, None, (re, im))
            self.bykey[k] = a
            self.add(a.z <= z3.RealVal(Fraction(repr(math.pi))))
            self.add(a.z >= z3.RealVal(-Fraction(repr(math.pi))))
        return a

    # -- path condition -------------------------------------------------------------
    def add(self, z):
        if z3.is_true(z):
            return
        i = z.get_id()
        if i in self.pcset:
            return
        self.pcset.add(i)
        if z3.is_and(z):
            self.keep.append(z)
            for y in z.children():
                self.add(y)
            return
        if z3.is_not(z) and z3.is_or(z.arg(0)):
            self.keep.append(z)
            for y in z.arg(0).children():
                self.add(y.arg(0) if z3.is_not(y) else z3.Not(y))
            return
        self.pc.append(z)
        y, nl, ax = linz(z)
        self.solver.add(y)
        if nl:
            self.nonlin.add(i)
        self.add_ax(ax)

    def add_ax(self, ax):
        for a in ax:
            if a.get_id() not in self.axset:
                self.axset[a.get_id()] = a
                self.solver.add(a)

    def assume(self, cond):
        if self.dead:
            raise PathEnd(self.dead)
        cond = _truthy(cond)
        if cond is True:
            return
        if self.spec:
            raise SpecAbort()
        if cond is False:
            self.dead = "assume"
            raise PathEnd("assume")
        self.add(cond.z)

    def timecheck(self):
        dl = self.opts.get("deadline")
        if dl and time.time() > dl:
            raise Budget("deadline")

    def quick(self, z, ms=None):
        """Satisfiability of pc and z: the linear abstraction first, then the connected constraints."""
        self.timecheck()
        t = time.time()
        y, nl, ax = linz(z)
        self.add_ax(ax)
        r = self.solver.check(y)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unsat:
            self.stats.unsat += 1
            return r
        if r == z3.sat:
            self.stats.sat += 1
            if not self.nonlin and not nl:
                return r
            if not nl and not any(c.get_id() in self.nonlin for c in self.slice([z])):
                return r
        else:
            self.stats.unknown += 1
        sl = self.slice([z])
        if len(sl) > len(self.pc) / 2:
            # most of the path is connected: the incremental solver
            t = time.time()
            while self.nfull < len(self.pc):
                self.full.add(self.pc[self.nfull])
                self.nfull += 1
            self.full.set("timeout", min(self.opts.get("branch_ms", 700), ms or 10**6))
            r = self.full.check(z)
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r != z3.unknown:
                if r == z3.sat:
                    self.stats.sat += 1
                else:
                    self.stats.unsat += 1
                return r
            self.stats.unknown += 1
        r, _ = self.solve([z], ms=ms or self.opts.get("branch_nl_ms", 2500), lin=False)
        return r

    def sat3(self, z):
        """sat / unsat / unknown of pc and z."""
        return self.quick(z)

    def slice(self, goals):
        """Constraints of the path condition connected to the goals by shared variables."""
        vs = set()
        for g in goals:
            vs |= z3vars(g, self.varcache)
        todo = [(c, z3vars(c, self.varcache)) for c in self.pc]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for c, v in todo:
                if not v or v & vs:
                    out.append(c)
                    vs |= v
                    changed = True
                else:
                    rest.append((c, v))
            todo = rest
        return out

    def solve(self, goals, ms=5000, sliced=True, extra=(), lin=True):
        """Check pc + goals; returns (result, model)."""
        self.timecheck()
        cons = (self.slice(list(goals) + list(extra)) if sliced else list(self.pc)) + list(goals) + list(extra)
        return raw_solve(cons, ms, self.stats, self.opts, lin=lin)

    def implied(self, cond):
        """True if the condition certainly holds on this path."""
        cond = _truthy(cond)
        if cond is True or cond is False:
            return cond
        if self.dead:
            raise PathEnd(self.dead)
        if cond.z.get_id() in self.pcset:
            return True
        k = ("impl", cond.z.get_id(), len(self.pc))
        r = self.bykey.get(k)
        if r is None:
            if self.spec:
                raise SpecAbort()
            # recorded in the trace so that re-execution is deterministic
            if self.pos < len(self.prefix):
                r = self.prefix[self.pos]
            else:
                r = self.quick(z3.Not(cond.z), self.opts.get('implied_ms', 400)) == z3.unsat
            self.pos += 1
            self.trace.append(r)
            self.bykey[k] = r
            self.bykey[("keep", cond.z.get_id())] = cond.z
        return r

    def branch_b(self, b):
        b = _truthy(b)
        if b is True or b is False:
            return b
        return self.branch(b.z)

    def branch(self, z):
        """Decide a symbolic condition on this path (forking when both sides are possible)."""
        if self.dead:
            raise PathEnd(self.dead)
        neg = z3.Not(z) if not z3.is_not(z) else z.arg(0)
        if z.get_id() in self.pcset:
            return True
        if neg.get_id() in self.pcset:
            return False
        if self.spec:
            raise SpecAbort()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(v)
            self.add(z if v else neg)
            return v
        if len(self.trace) > self.opts.get("max_depth", 3000):
            raise Budget("path depth")
        self.stats.branches += 1
        rt = self.sat3(z)
        if rt == z3.unsat:
            v = False
            if not self.trace and False:
                pass
        else:
            rf = self.sat3(neg)
            if rf == z3.unsat:
                v = True
            else:
                v = True
                self.new_prefixes.append(self.trace + [False])
        self.pos += 1
        self.trace.append(v)
        self.add(z if v else neg)
        return v

    def choose(self, n, name=None):
        """Unconstrained finite choice 0..n-1 (each explored)."""
        if self.spec:
            raise SpecAbort()
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos]
        else:
            v = 0
            for k in range(1, n):
                self.new_prefixes.append(self.trace + [k])
        self.pos += 1
        self.trace.append(v)
        return v

    def concretize(self, x):
        """Fork over the values of a symbolic number."""
        if self.dead:
            raise PathEnd(self.dead)
        k = ("conc", p_key(x.p))
        if k in self.bykey:
            return self.bykey[k]
        if self.spec:
            raise SpecAbort()
        z = x.z
        n = 0
        while True:
            if self.pos < len(self.prefix):
                ent = self.prefix[self.pos]
            else:
                n += 1
                if n > 1:
                    raise Unsupported("concretize")
                self.timecheck()
                # values of the constraints connected to z
                r, m = self.solve([z == z], ms=4000) if False else raw_solve(self.slice([z == 0]), 4000, self.stats, self.opts)
                if r == z3.unsat:
                    self.dead = "infeasible"
                    raise PathEnd("infeasible")
                if r != z3.sat:
                    raise Unsupported("concretize: unknown")
                val = m.eval(z, model_completion=True)
                if not z3.is_rational_value(val):
                    raise Unsupported("concretize: irrational")
                fr = Fraction(val.numerator_as_long(), val.denominator_as_long())
                eq = z == z3.RealVal(fr)
                if self.quick(z3.Not(eq)) != z3.unsat:
                    self.new_prefixes.append(self.trace + [("ne", fr)])
                    if not x.isint:
                        self.nreal = getattr(self, "nreal", 0)
                ent = ("eq", fr)
            self.pos += 1
            self.trace.append(ent)
            kind, fr = ent
            eq = z == z3.RealVal(fr)
            if kind == "eq":
                self.add(eq)
                v = tofloat(fr, x.isint)
                self.bykey[k] = v
                return v
            ne = sum(1 for e in self.trace if isinstance(e, tuple) and e[0] == "ne")
            if ne > self.opts.get("max_conc", 200):
                raise Unsupported("too many values to concretize")
            self.add(z3.Not(eq))
            n = 0


_TACTICS = {}


def _nl():
    t = _TACTICS.get("nl")
    if t is None:
        t = z3.Then(z3.With("simplify", som=False), "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "tseitin-cnf", z3.With("nlsat", seed=0))
        _TACTICS["nl"] = t
    return t


def raw_solve(cons, ms, stats, opts=None, portfolio=("smt", "nl"), lin=True):
    """Portfolio: the linear abstraction, z3's default solver, then the nlsat tactic, within ms each."""
    opts = opts or {}
    if lin:
        ls = [linz(c) for c in cons]
        if any(x[1] for x in ls):
            t = time.time()
            s = z3.Solver()
            s.set("timeout", int(min(ms, 1500)))
            s.add(*[x[0] for x in ls])
            s.add(*[a for x in ls for a in x[2]])
            r = s.check()
            stats.queries += 1
            stats.solver_s += time.time() - t
            if r == z3.unsat:
                stats.unsat += 1
                return r, None
    res, model = z3.unknown, None
    for kind in portfolio:
        t = time.time()
        if kind == "nl":
            s = _nl().solver()
        else:
            s = z3.Solver()
            try:
                s.set("random_seed", opts.get("seed", 0) % 1000)
            except z3.Z3Exception:
                pass
        s.set("timeout", int(ms))
        s.add(*cons)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        stats.queries += 1
        stats.solver_s += time.time() - t
        if r == z3.sat:
            stats.sat += 1
            return r, s.model()
        if r == z3.unsat:
            stats.unsat += 1
            return r, None
        stats.unknown += 1
    return z3.unknown, None


def z3float(v):
    """Float of a z3 numeral (rational or algebraic)."""
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    raise ValueError("not a value: %s" % v)
