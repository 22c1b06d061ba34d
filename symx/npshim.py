"""numpy for the modules under test: object arrays of symbolic scalars with a virtual dtype."""
import builtins, math, types, operator
from fractions import Fraction
import numpy as np
from . import core
from .core import (SymNum, SymBool, SymComplex, Unsupported, num_max, num_min, num_abs, num_sign, num_clip, num_sqrt,
                   num_exp, num_cos, num_sin, num_angle, num_floor, num_round, ite, b_and, b_or, b_not, isnum, fin, INF, NAN)

SYM = (SymNum, SymBool, SymComplex)
RANK = {"bool": 0, "int": 1, "float32": 2, "float": 3, "complex": 4, "object": 5}


# --------------------------------------------------------------------------------------
# virtual dtypes
# --------------------------------------------------------------------------------------
class DT(type):
    """Metaclass of the stand-ins for numpy scalar types."""

    def __instancecheck__(cls, x):
        if isinstance(x, cls.real):
            return True
        if isinstance(x, SymNum) and x.isnp:
            return cls.vd in ("any", "number") or (cls.vd == "integer") == x.isint and cls.vd in ("integer", "int") or (not x.isint and cls.vd in ("floating", "float"))
        if isinstance(x, SymComplex):
            return cls.vd in ("any", "number", "complex")
        return False

    def __subclasscheck__(cls, c):
        if isinstance(c, DT):
            c = c.real
        return issubclass(c, cls.real)

    def __call__(cls, x=0, *a, **k):
        if isinstance(x, SYM):
            return cast_scalar(x, cls.vd, True)
        if isinstance(x, np.ndarray) and has_sym(x):
            return SymArray.make(x, cls.vd)
        return cls.real(x)

    def __eq__(cls, o):
        return o is cls or o is cls.real or (isinstance(o, VDType) and o.vd == cls.vd)

    def __hash__(cls):
        return hash(cls.real)

    def __getattr__(cls, n):
        return getattr(cls.real, n)

    def __repr__(cls):
        return repr(cls.real)


def _dt(name, real, vd):
    return DT(name, (object,), {"real": real, "vd": vd})


DTYPES = {}
for _n, _vd in (("float64", "float"), ("double", "float"), ("float32", "float32"), ("float16", "float32"), ("single", "float32"),
                ("longdouble", "float"), ("int64", "int"), ("int32", "int"), ("int16", "int"), ("int8", "int"), ("intp", "int"), ("uint8", "int"), ("uint32", "int"), ("uint64", "int"),
                ("complex128", "complex"), ("complex64", "complex"), ("cdouble", "complex"), ("bool_", "bool"), ("object_", "object"),
                ("floating", "floating"), ("integer", "integer"), ("number", "number"), ("generic", "any"), ("inexact", "floating"),
                ("signedinteger", "integer"), ("complexfloating", "complex")):
    DTYPES[_n] = _dt(_n, getattr(np, _n), _vd)


class VDType(object):
    def __init__(self, vd):
        self.vd = vd

    @property
    def kind(self):
        return {"bool": "b", "int": "i", "float": "f", "float32": "f", "complex": "c", "object": "O"}[self.vd]

    @property
    def name(self):
        return {"bool": "bool", "int": "int64", "float": "float64", "float32": "float32", "complex": "complex128", "object": "object"}[self.vd]

    @property
    def type(self):
        return DTYPES[{"bool": "bool_", "int": "int64", "float": "float64", "float32": "float32", "complex": "complex128", "object": "object_"}[self.vd]]

    def __eq__(self, o):
        try:
            return self.vd == vd_of(o)
        except Exception:
            return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.vd)

    def __repr__(self):
        return "dtype('%s')" % self.name

    __str__ = lambda self: self.name


def vd_of(t):
    """Virtual dtype named by a dtype-like object (None: unspecified)."""
    if t is None:
        return None
    if isinstance(t, VDType):
        return t.vd
    if isinstance(t, DT):
        v = t.vd
        return {"floating": "float", "integer": "int", "number": "float", "any": "object"}.get(v, v)
    real = getattr(t, "_sx_real", None)
    if real is not None:
        t = real
    if t is object:
        return "object"
    try:
        d = np.dtype(t)
    except TypeError:
        raise
    if d == np.float32 or d == np.float16:
        return "float32"
    return {"b": "bool", "i": "int", "u": "int", "f": "float", "c": "complex", "O": "object", "U": "object", "S": "object"}[d.kind]


def vd_scalar(x):
    if isinstance(x, SymBool) or isinstance(x, (bool, np.bool_)):
        return "bool"
    if isinstance(x, SymNum):
        return "int" if x.isint else "float"
    if isinstance(x, (SymComplex, complex, np.complexfloating)):
        return "complex"
    if isinstance(x, (int, np.integer)):
        return "int"
    if isinstance(x, np.float32):
        return "float32"
    if isinstance(x, (float, np.floating, Fraction)):
        return "float"
    return "object"


def promote(vds):
    r = None
    for v in vds:
        if v is None:
            continue
        if r is None or RANK[v] > RANK[r]:
            r = v
    return r or "float"


def cast_scalar(x, vd, isnp=False):
    if vd is None or vd == "object" or vd == "any":
        return x
    if isinstance(x, np.ndarray):
        if x.size == 1:
            x = x.reshape(-1)[0]
        else:
            raise ValueError("setting an array element with a sequence.")
    if vd in ("float", "float32", "floating", "number"):
        if isinstance(x, SymBool):
            x = x.num()
        if isinstance(x, SymNum):
            return SymNum(x.p, False, isnp or x.isnp)
        if isinstance(x, SymComplex):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if x is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if isinstance(x, (complex, np.complexfloating)):
            raise TypeError("float() argument must be a string or a real number, not 'complex'")
        if vd == "float32" and not isinstance(x, np.float32):
            return float(np.float32(float(x)))
        return np.float64(x) if isnp else float(x)
    if vd in ("int", "integer"):
        if isinstance(x, SYM):
            if isinstance(x, SymBool):
                x = x.num()
            r = core.num_trunc(x)
            if isnp and isinstance(r, SymNum):
                r = SymNum(r.p, True, True)
            return r
        if x is None:
            raise TypeError("int() argument must be a string, a bytes-like object or a real number, not 'NoneType'")
        return int(x)
    if vd == "complex":
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, SYM):
            return SymComplex.lift(x)
        return complex(x)
    if vd == "bool":
        if isinstance(x, SYM):
            return core._truthy(x)
        return bool(x)
    return x


def has_sym(x, depth=0):
    if isinstance(x, SYM):
        return True
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return True
        return False
    if isinstance(x, (list, tuple)):
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict):
        return any(has_sym(y) for y in x.values())
    return False


# --------------------------------------------------------------------------------------
# arrays
# --------------------------------------------------------------------------------------
class SymArray(np.ndarray):
    """Object array with a virtual dtype."""

    def __new__(cls, *a, **k):
        raise Unsupported("SymArray constructor")

    @staticmethod
    def wrap(a, vd=None):
        """View an object ndarray as a SymArray."""
        if not isinstance(a, np.ndarray):
            a = _objarray(a)
        if a.dtype != object:
            if vd is None:
                vd = vd_of(a.dtype)
            a = a.astype(object)
        r = a.view(SymArray)
        if vd is None:
            vd = getattr(a, "vd", None)
            if vd is None:
                vd = promote([vd_scalar(x) for x in a.reshape(-1)]) if a.size else "float"
        r.vd = vd
        return r

    @staticmethod
    def make(data, vd=None, copy=True):
        """np.array(data, dtype)."""
        a = _objarray(data)
        src = getattr(data, "vd", None) if isinstance(data, np.ndarray) else None
        if isinstance(data, np.ndarray) and src is None and data.dtype != object:
            src = vd_of(data.dtype)
        if vd is None:
            vd = src
        if vd is None:
            vds = [vd_scalar(x) for x in np.asarray(a, dtype=object).reshape(-1)]
            vd = promote(vds) if vds else "float"
        r = np.empty(a.shape, dtype=object)
        flat, out = a.reshape(-1), r.reshape(-1)
        for i in range(flat.size):
            out[i] = cast_scalar(np.ndarray.__getitem__(flat, i), vd)
        if copy is False and isinstance(data, SymArray) and vd == data.vd:
            return data
        r = r.view(SymArray)
        r.vd = vd
        return r

    def __array_finalize__(self, obj):
        self.vd = getattr(obj, "vd", None)

    # -- element access -----------------------------------------------------------
    def _mark(self, x):
        if isinstance(x, SymNum):
            if self.vd not in (None, "object") and not x.isnp:
                return SymNum(x.p, x.isint if self.vd != "float" else False, True, x.nn)
            return x
        if self.vd == "float" and isinstance(x, (float, int)):
            return np.float64(x)
        if self.vd == "int" and isinstance(x, int):
            return np.int64(x)
        return x

    def _index(self, key):
        """Make an index concrete (forking on symbolic positions and masks)."""
        if isinstance(key, tuple):
            return tuple(self._index(k) for k in key)
        if isinstance(key, SymNum):
            return int(key.__index__())
        if isinstance(key, np.ndarray) and key.dtype == object:
            vd = getattr(key, "vd", None)
            flat = [x for x in key.reshape(-1)]
            if vd == "bool" or (flat and all(isinstance(x, (bool, np.bool_, SymBool)) for x in flat)):
                return np.array([bool(x) for x in flat], dtype=bool).reshape(key.shape)
            if vd == "float" and flat:
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return np.array([int(operator.index(x)) for x in flat], dtype=int).reshape(key.shape)
        if isinstance(key, list):
            return [self._index(k) if not isinstance(k, (SymBool,)) else bool(k) for k in key]
        if isinstance(key, slice):
            return slice(*[self._index(k) if isinstance(k, SymNum) else k for k in (key.start, key.stop, key.step)])
        return key

    def __getitem__(self, key):
        if isinstance(key, SymNum) and self.ndim >= 1 and not key.isconst():
            return self._select(key)
        if isinstance(key, tuple) and len(key) == self.ndim and sum(isinstance(k, SymNum) for k in key) == 1:
            pos = [i for i, k in enumerate(key) if isinstance(k, SymNum)][0]
            other = tuple(slice(None) if i == pos else self._index(k) for i, k in enumerate(key))
            sub = np.ndarray.__getitem__(self, other)
            if isinstance(sub, np.ndarray) and sub.ndim == 1:
                return sub._select(key[pos])
        r = np.ndarray.__getitem__(self, self._index(key))
        if isinstance(r, np.ndarray):
            return r
        return self._mark(r)

    def _select(self, key):
        """Element (or row) at a symbolic position, as an if-then-else chain."""
        if not key.isint:
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices")
        n = self.shape[0]
        if not bool(b_and(key >= -n, key < n)):
            raise IndexError("index %s is out of bounds for axis 0 with size %d" % ("<sym>", n))
        if bool(key < 0):
            key = key + n
        if self.ndim > 1:
            return np.ndarray.__getitem__(self, int(key.concretize()))
        # run-length encode equal neighbours to keep the chain short
        vals = [np.ndarray.__getitem__(self, i) for i in range(n)]
        r = vals[-1]
        for i in range(n - 2, -1, -1):
            if vals[i] is vals[i + 1] or (isnum(vals[i]) and isnum(vals[i + 1]) and vals[i] == vals[i + 1]):
                continue
            r = ite(key <= i, vals[i], r)
        return self._mark(r)

    def __setitem__(self, key, val):
        key = self._index(key)
        vd = self.vd
        if isinstance(val, (list, tuple)):
            val = SymArray.make(val)
        if isinstance(val, np.ndarray) and val.ndim > 0:
            src = SymArray.wrap(np.asarray(val) if not isinstance(val, SymArray) else val)
            out = np.empty(src.shape, dtype=object)
            fo, fi = out.reshape(-1), src.reshape(-1)
            for i in range(fi.size):
                fo[i] = cast_scalar(np.ndarray.__getitem__(fi, i), vd)
            np.ndarray.__setitem__(self, key, out)
        else:
            if isinstance(val, np.ndarray):
                val = val[()]
            x = cast_scalar(val, vd)
            full = key if isinstance(key, tuple) else (key,)
            if len(full) == self.ndim and all(isinstance(k, (int, np.integer)) for k in full):
                np.ndarray.__setitem__(self, key, x)  # a 0-d array would be stored as such
            else:
                np.ndarray.__setitem__(self, key, _cell(x))

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    # -- attributes ---------------------------------------------------------------
    @property
    def vdtype(self):
        return VDType(self.vd or "float")

    def __getattribute__(self, n):
        if n == "dtype" and SymArray._virtual:
            return VDType(np.ndarray.__getattribute__(self, "vd") or "float")
        return np.ndarray.__getattribute__(self, n)

    _virtual = False

    @property
    def real(self):
        return emap(lambda x: x.real if not isinstance(x, SymBool) else x.num(), self, vd="float" if self.vd in ("complex", None) else self.vd)

    @real.setter
    def real(self, v):
        v = np.broadcast_to(SymArray.make(v), self.shape)
        im = self.imag
        self[...] = emap(lambda a, b: SymComplex(a, b), v, im, vd="complex")

    @property
    def imag(self):
        return emap(lambda x: x.imag if not isinstance(x, SymBool) else 0.0, self, vd="float" if self.vd in ("complex", None) else self.vd)

    @imag.setter
    def imag(self, v):
        v = np.broadcast_to(SymArray.make(v), self.shape)
        re = self.real
        self[...] = emap(lambda a, b: SymComplex(b, a), v, re, vd="complex")

    def conj(self):
        return f_conj(self)

    conjugate = conj

    def astype(self, t, *a, **k):
        return SymArray.make(self, vd_of(t))

    def copy(self, *a):
        return SymArray.make(self, self.vd)

    def __deepcopy__(self, memo):
        import copy as _c

        r = np.empty(self.shape, dtype=object)
        fo, fi = r.reshape(-1), self.reshape(-1)
        for i in range(fi.size):
            fo[i] = _c.deepcopy(np.ndarray.__getitem__(fi, i), memo)
        r = r.view(SymArray)
        r.vd = self.vd
        return r

    __copy__ = lambda self: self.copy()

    def sum(self, axis=None, *a, **k):
        return f_sum(self, axis=axis)

    def prod(self, axis=None, *a, **k):
        return reduce_(operator.mul, self, 1, axis)

    def mean(self, axis=None, *a, **k):
        return f_mean(self, axis)

    def max(self, axis=None, *a, **k):
        return f_amax(self, axis)

    def min(self, axis=None, *a, **k):
        return f_amin(self, axis)

    def any(self, axis=None, *a, **k):
        return f_any(self, axis)

    def all(self, axis=None, *a, **k):
        return f_all(self, axis)

    def clip(self, min=None, max=None, *a, **k):
        return f_clip(self, min, max)

    def round(self, decimals=0, *a, **k):
        return emap(lambda x: num_round(x, decimals), self, vd=self.vd)

    def dot(self, o, *a):
        return f_dot(self, o)

    def item(self, *a):
        r = np.ndarray.item(self, *a)
        if isinstance(r, SymNum):
            return SymNum(r.p, r.isint, False)
        return r

    def tolist(self):
        def conv(x):
            if isinstance(x, np.ndarray):
                return [conv(y) for y in x]
            if isinstance(x, np.generic):
                return x.item()
            if isinstance(x, SymNum):
                return SymNum(x.p, x.isint, False)
            return x

        return conv(self) if self.ndim else self.item()

    def sort(self, *a, **k):
        if self.ndim != 1:
            raise Unsupported("sort nd")
        vals = sorted(list(self))
        for i, v in enumerate(vals):
            np.ndarray.__setitem__(self, i, v)

    def cumsum(self, axis=None, *a, **k):
        return f_cumsum(self, axis)

    def argmax(self, axis=None, *a, **k):
        return f_argm(self, operator.gt)

    def argmin(self, axis=None, *a, **k):
        return f_argm(self, operator.lt)

    def nonzero(self):
        m = np.array([bool(core._truthy(x)) for x in self.reshape(-1)], dtype=bool).reshape(self.shape)
        return tuple(SymArray.wrap(x) for x in m.nonzero())

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def __float__(self):
        raise Unsupported("float(array)")

    def __contains__(self, v):
        for x in self.reshape(-1):
            r = x == v
            if bool(r):
                return True
        return False

    def __matmul__(self, o):
        if not isinstance(o, np.ndarray) and getattr(type(o), "__array_ufunc__", 0) is None:
            return NotImplemented
        return f_dot(self, o)

    def __rmatmul__(self, o):
        return f_dot(o, self)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __repr__(self):
        return "<symarray %s>" % (self.shape,)

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)

    def __reduce__(self):
        raise Unsupported("pickle of array")


def _cell(x):
    """Wrap a scalar so that object-array assignment stores it as one element."""
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _shape_of(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, SYM) or not isinstance(x, (list, tuple, range)):
        return ()
    if len(x) == 0:
        return (0,)
    shapes = [_shape_of(y) for y in x]
    if any(s != shapes[0] for s in shapes):
        raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape after 1 dimensions.")
    return (len(x),) + shapes[0]


def _objarray(data):
    """Object ndarray from nested sequences / scalars / arrays."""
    if isinstance(data, np.ndarray):
        return data.view(np.ndarray) if data.dtype == object else data.astype(object)
    if hasattr(data, "toarray") and hasattr(data, "shape"):
        return data.toarray().view(np.ndarray)
    if isinstance(data, (map, filter, zip)) or isinstance(data, types.GeneratorType):
        a = np.empty((), dtype=object)
        a[()] = data
        return a
    if isinstance(data, (type({}.values()), type({}.keys()), dict, set)):
        a = np.empty((), dtype=object)
        a[()] = data
        return a
    shape = _shape_of(data)
    r = np.empty(shape, dtype=object)
    if shape == ():
        r[()] = data
        return r

    def fill(arr, d):
        if arr.ndim == 1:
            if isinstance(d, np.ndarray):
                for i in range(len(d)):
                    arr[i] = np.ndarray.__getitem__(d, i) if not isinstance(d, SymArray) else d[i]
            else:
                for i, x in enumerate(d):
                    arr[i] = x if not isinstance(x, np.ndarray) else x[()]
        else:
            for i, x in enumerate(d):
                fill(arr[i], x)

    fill(r, data)
    return r


# --------------------------------------------------------------------------------------
# elementwise evaluation
# --------------------------------------------------------------------------------------
def emap(fn, *args, vd=None):
    """Apply fn elementwise with broadcasting; scalars in -> scalar out."""
    arrs = []
    allscalar = True
    for a in args:
        if isinstance(a, np.ndarray):
            if a.ndim > 0:
                allscalar = False
            elif isinstance(a, SymArray):
                pass
            arrs.append(a.view(np.ndarray) if a.dtype == object else a.astype(object))
        elif isinstance(a, (list, tuple)):
            allscalar = False
            arrs.append(_objarray(a))
        elif hasattr(a, "toarray"):
            allscalar = False
            arrs.append(_objarray(a))
        else:
            arrs.append(a)
    if allscalar:
        r = fn(*[_plain(x[()] if isinstance(x, np.ndarray) else x) for x in arrs])
        return SymNum(r.p, r.isint, True, r.nn) if isinstance(r, SymNum) and not r.isnp else r
    arrs = [x if isinstance(x, np.ndarray) else _cell(x) for x in arrs]
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    out = np.empty(bs[0].shape, dtype=object)
    fo = out.reshape(-1)
    fl = [b.reshape(-1) for b in bs]
    for i in range(fo.size):
        fo[i] = fn(*[_plain(f[i]) for f in fl])
    return SymArray.wrap(out, vd)


def _plain(x):
    return x.item() if isinstance(x, np.generic) else x


def _npify(x):
    """Numpy scalar semantics (division by zero gives inf/nan)."""
    if isinstance(x, SymNum):
        return x if x.isnp else SymNum(x.p, x.isint, True, x.nn)
    if isinstance(x, (float, int)) and not isinstance(x, bool):
        return np.float64(x)
    return x


def _npdo(op, a, b):
    """Division with numpy semantics of a and b, one of which is symbolic."""
    if isinstance(a, SymBool):
        a = a.num()
    if isinstance(b, SymBool):
        b = b.num()
    if isinstance(a, (complex, np.complexfloating)):
        a = SymComplex.lift(a)
    if isinstance(b, (complex, np.complexfloating)):
        b = SymComplex.lift(b)
    if a is None or b is None:
        raise TypeError("unsupported operand type(s) for /")
    if isinstance(a, SYM):
        if isinstance(b, np.generic):
            b = b.item()
        return getattr(_npify(a), "__%s__" % op)(_npify(b) if isinstance(b, SYM) else b)
    if isinstance(a, np.generic):
        a = a.item()
    return getattr(_npify(b), "__r%s__" % op)(a)


def s_div(a, b):
    if isinstance(a, SymBool):
        a = a.num()
    if isinstance(b, SymBool):
        b = b.num()
    if isinstance(a, SYM) or isinstance(b, SYM):
        return _npdo("truediv", a, b)
    with np.errstate(all="ignore"):
        if isinstance(a, (complex, np.complexfloating)) or isinstance(b, (complex, np.complexfloating)):
            return complex(np.complex128(a) / np.complex128(b)) if True else None
        if b is None or a is None:
            raise TypeError("unsupported operand type(s) for /")
        return float(np.float64(a) / np.float64(b))


def s_abs(x):
    return abs(x)


def s_conj(x):
    return x.conjugate() if not isinstance(x, SymBool) else x


def s_isnan(x):
    if isinstance(x, SymComplex):
        return s_isnan(x.real) or s_isnan(x.imag)
    if isinstance(x, SYM):
        return False
    if isinstance(x, (complex, np.complexfloating)):
        return math.isnan(x.real) or math.isnan(x.imag)
    if x is None:
        raise TypeError("ufunc 'isnan' not supported for the input types")
    return math.isnan(x)


def s_isinf(x):
    if isinstance(x, SymComplex):
        return s_isinf(x.real) or s_isinf(x.imag)
    if isinstance(x, SYM):
        return False
    if isinstance(x, (complex, np.complexfloating)):
        return math.isinf(x.real) or math.isinf(x.imag)
    return math.isinf(x)


def s_isfinite(x):
    return not s_isnan(x) and not s_isinf(x)


def s_sign(x):
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, SymNum):
        return num_sign(x)
    if isinstance(x, SymComplex):
        # numpy 2: x / |x|, and 0 for 0
        a = abs(x)
        if bool(a == 0):
            return complex(0)
        return x / a
    r = np.sign(x)
    return r.item() if isinstance(r, np.generic) else r


def s_angle(x):
    if isinstance(x, SymComplex):
        return num_angle(x.real, x.imag)
    if isinstance(x, SymNum):
        return num_angle(x, 0.0)
    x = complex(x)
    return math.atan2(x.imag, x.real)


def s_max(a, b):
    if isinstance(a, SymBool):
        a = a.num()
    if isinstance(b, SymBool):
        b = b.num()
    if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
        raise Unsupported("max of complex")
    return num_max(a, b)


def s_min(a, b):
    if isinstance(a, SymBool):
        a = a.num()
    if isinstance(b, SymBool):
        b = b.num()
    return num_min(a, b)


def s_sqrt(x):
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, SYM):
        return num_sqrt(x)
    if isinstance(x, (complex,)):
        return complex(np.sqrt(x))
    return math.sqrt(x) if x >= 0 else NAN


def s_arctan2(y, x):
    return num_angle(x, y)


def s_floordiv(a, b):
    if isinstance(a, SYM) or isinstance(b, SYM):
        return _npdo("floordiv", a, b)
    return a // b


def s_pow(a, b):
    if isinstance(b, (float, np.floating)) and not isinstance(a, SYM):
        return a ** b
    return a ** b


def s_bool(x):
    return core._truthy(x) if isinstance(x, SYM) else bool(x)


UF = {
    "add": (lambda a, b: a + b, None), "subtract": (lambda a, b: a - b, None), "multiply": (lambda a, b: a * b, None),
    "divide": (s_div, "div"), "true_divide": (s_div, "div"), "floor_divide": (s_floordiv, None),
    "remainder": (lambda a, b: a % b, None), "mod": (lambda a, b: a % b, None), "power": (s_pow, None), "float_power": (s_pow, "float"),
    "negative": (lambda a: -a, None), "positive": (lambda a: a, None),
    "absolute": (s_abs, "abs"), "fabs": (s_abs, "float"), "sign": (s_sign, None), "conjugate": (s_conj, None), "square": (lambda a: a * a, None),
    "reciprocal": (lambda a: s_div(1.0, a), "div"),
    "maximum": (s_max, None), "minimum": (s_min, None), "fmax": (s_max, None), "fmin": (s_min, None),
    "sqrt": (s_sqrt, "fc"), "exp": (num_exp, "fc"), "sin": (num_sin, "fc"), "cos": (num_cos, "fc"),
    "arctan2": (s_arctan2, "float"), "hypot": (lambda a, b: abs(SymComplex(a, b)) if isinstance(a, SYM) or isinstance(b, SYM) else math.hypot(a, b), "float"),
    "floor": (lambda a: core.as_float(num_floor(a)), "float"), "ceil": (lambda a: core.as_float(-num_floor(-a)), "float"), "trunc": (lambda a: core.as_float(core.num_trunc(a)), "float"),
    "rint": (lambda a: core.as_float(num_round(a)), "float"),
    "isnan": (s_isnan, "bool"), "isinf": (s_isinf, "bool"), "isfinite": (s_isfinite, "bool"),
    "less": (lambda a, b: a < b, "bool"), "less_equal": (lambda a, b: a <= b, "bool"), "greater": (lambda a, b: a > b, "bool"),
    "greater_equal": (lambda a, b: a >= b, "bool"), "equal": (lambda a, b: a == b, "bool"), "not_equal": (lambda a, b: a != b, "bool"),
    "logical_and": (lambda a, b: b_and(s_bool(a), s_bool(b)), "bool"), "logical_or": (lambda a, b: b_or(s_bool(a), s_bool(b)), "bool"),
    "logical_not": (lambda a: b_not(s_bool(a)), "bool"), "logical_xor": (lambda a, b: b_not(core.b_eq(s_bool(a), s_bool(b))), "bool"),
    "bitwise_and": (lambda a, b: b_and(a, b) if isinstance(a, (bool, np.bool_, SymBool)) else a & b, None),
    "bitwise_or": (lambda a, b: b_or(a, b) if isinstance(a, (bool, np.bool_, SymBool)) else a | b, None),
    "invert": (lambda a: b_not(a) if isinstance(a, (bool, np.bool_, SymBool)) else ~a, None),
    "deg2rad": (lambda a: a * math.pi / 180 if isinstance(a, SYM) else math.radians(a), "float"), "radians": (lambda a: a * math.pi / 180 if isinstance(a, SYM) else math.radians(a), "float"),
    "rad2deg": (lambda a: a * 180 / math.pi if isinstance(a, SYM) else math.degrees(a), "float"), "degrees": (lambda a: a * 180 / math.pi if isinstance(a, SYM) else math.degrees(a), "float"),
}


def _vd_in(x):
    if isinstance(x, SymArray):
        return x.vd
    if isinstance(x, np.ndarray):
        return vd_of(x.dtype)
    if isinstance(x, (list, tuple)):
        v = [vd_scalar(y) for y in _objarray(x).reshape(-1)]
        return promote(v)
    return vd_scalar(x)


def _vd_out(rule, ins):
    if rule == "bool":
        return "bool"
    p = promote([_vd_in(x) for x in ins])
    if p == "object":
        return "object"
    if rule == "div":
        return p if RANK[p] >= RANK["float32"] else "float"
    if rule == "abs":
        return "float" if p == "complex" else p
    if rule == "float":
        return "float"
    if rule == "fc":
        return "complex" if p == "complex" else "float"
    if p == "bool":
        return "int" if rule is None else p
    return p


def apply_uf(name, args, out=None, where=True):
    fn, rule = UF[name]
    vd = None
    if any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
        vd = _vd_out(rule, args)
        if name in ("maximum", "minimum", "bitwise_and", "bitwise_or", "invert") and promote([_vd_in(x) for x in args]) == "bool":
            vd = "bool"
    if name in ("divide", "true_divide") and vd == "object":
        r = emap(lambda a, b: a / b, *args, vd=vd)
    else:
        r = emap(fn, *args, vd=vd)
    if isinstance(r, np.ndarray) and vd is None:
        r.vd = _vd_out(rule, args)
    if where is not True:
        w = where
        base = out if out is not None else r
        r = emap(lambda c, a, b: ite(c, a, b), w, r, base, vd=getattr(r, "vd", None))
    if out is not None:
        if isinstance(out, SymArray):
            out[...] = r
            return out
        np.ndarray.__setitem__(out, Ellipsis, r)
        return out
    return r


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    for x in inputs:
        if type(x).__name__ == "CpConstraint" or not isinstance(x, np.ndarray) and getattr(type(x), "__array_ufunc__", 0) is None:
            return NotImplemented
    out = kw.pop("out", None)
    if isinstance(out, tuple):
        out = out[0] if len(out) == 1 else out
    where = kw.pop("where", True)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    dt = kw.pop("dtype", None)
    if name in ("matmul",) and method == "__call__":
        return f_dot(*inputs)
    if name not in UF:
        raise Unsupported("numpy ufunc %s" % name)
    if method == "__call__":
        r = apply_uf(name, inputs, out, where)
        if dt is not None and isinstance(r, np.ndarray):
            r = r.astype(dt)
        return r
    if method == "reduce":
        axis = kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        init = kw.pop("initial", None)
        a = SymArray.wrap(inputs[0]) if not isinstance(inputs[0], SymArray) else inputs[0]
        ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False}.get(name)
        if init is not None and init is not np._NoValue:
            ident = init
        r = reduce_(UF[name][0], a, ident, axis, bool_=name in ("logical_and", "logical_or"))
        if keep:
            r = np.expand_dims(r, axis if axis is not None else tuple(range(a.ndim)))
        if isinstance(r, SymArray) and name.startswith("logical"):
            r.vd = "bool"
        return r
    if method == "outer":
        a, b = [SymArray.make(x) for x in inputs]
        return apply_uf(name, [a.reshape(a.shape + (1,) * b.ndim), b])
    if method == "accumulate":
        a = SymArray.make(inputs[0])
        if a.ndim != 1:
            raise Unsupported("accumulate nd")
        outl = []
        for x in a:
            outl.append(x if not outl else UF[name][0](outl[-1], x))
        return SymArray.make(outl)
    if method == "at":
        a, idx = inputs[0], inputs[1]
        idxs = SymArray.make(idx)
        for k, i in enumerate(idxs.reshape(-1)):
            i = int(operator.index(i))
            if len(inputs) > 2:
                b = inputs[2]
                b = b[k] if isinstance(b, (np.ndarray, list)) and np.ndim(b) else b
                a[i] = UF[name][0](a[i], b)
            else:
                a[i] = UF[name][0](a[i])
        return None
    raise Unsupported("ufunc method %s.%s" % (name, method))


_OPS = {"__add__": ("add", 0), "__radd__": ("add", 1), "__sub__": ("subtract", 0), "__rsub__": ("subtract", 1), "__mul__": ("multiply", 0), "__rmul__": ("multiply", 1),
        "__truediv__": ("divide", 0), "__rtruediv__": ("divide", 1), "__pow__": ("power", 0), "__lt__": ("less", 0), "__le__": ("less_equal", 0),
        "__gt__": ("greater", 0), "__ge__": ("greater_equal", 0), "__eq__": ("equal", 0), "__ne__": ("not_equal", 0)}


def array_binop(name, a, arr):
    if name not in _OPS:
        raise Unsupported("array op " + name)
    uf, rev = _OPS[name]
    return apply_uf(uf, (arr, a) if rev else (a, arr))


def reduce_(fn, a, ident, axis=None, bool_=False):
    if not isinstance(a, SymArray):
        a = SymArray.make(a)
    if axis is None or (isinstance(axis, int) and a.ndim == 1) or (isinstance(axis, tuple) and len(axis) == a.ndim):
        vals = [a._mark(x) for x in a.view(np.ndarray).reshape(-1)]
        if not vals:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            return float(ident) if a.vd in ("float", None) and not bool_ else ident
        if bool_:
            r = ident
            for x in vals:
                r = fn(r, x)
            return r
        r = vals[0]
        if isinstance(r, SymBool):
            r = r.num()
        elif isinstance(r, (bool, np.bool_)) and ident is not None:
            r = int(r)
        for x in vals[1:]:
            r = fn(r, x)
        return r
    if isinstance(axis, tuple):
        raise Unsupported("reduce axes")
    m = np.moveaxis(a, axis, 0)
    shape = m.shape[1:]
    out = np.empty(shape, dtype=object)
    fo = out.reshape(-1)
    mm = m.view(np.ndarray).reshape((m.shape[0], -1))
    for j in range(fo.size):
        col = SymArray.wrap(np.array(list(mm[:, j]) + [None], dtype=object)[:-1], a.vd)
        fo[j] = reduce_(fn, col, ident, None, bool_)
    vd = a.vd
    if vd == "bool" and not bool_:
        vd = "int"
    return SymArray.wrap(out, vd)


# --------------------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------------------
def _arr(x):
    if isinstance(x, SymArray):
        return x
    return SymArray.make(x)


def f_array(data=None, dtype=None, copy=True, ndmin=0, **k):
    if hasattr(data, "value_array"):
        return data.value_array()
    r = SymArray.make(data, vd_of(dtype))
    while r.ndim < ndmin:
        r = r[None]
    return r


def f_asarray(data, dtype=None, **k):
    if isinstance(data, SymArray) and (dtype is None or vd_of(dtype) == data.vd):
        return data
    return SymArray.make(data, vd_of(dtype))


def _full(shape, v, dtype):
    vd = vd_of(dtype) if dtype is not None else (None)
    if isinstance(shape, SymNum):
        shape = int(operator.index(shape))
    elif isinstance(shape, (tuple, list)):
        shape = tuple(int(operator.index(s)) for s in shape)
    a = np.empty(shape, dtype=object)
    if isinstance(v, (np.ndarray, list, tuple)):
        a[...] = _objarray(v)
    else:
        a[...] = _cell(v)
    if vd is not None:
        f = a.reshape(-1)
        for i in range(f.size):
            f[i] = cast_scalar(f[i], vd)
    return SymArray.wrap(a, vd)


def f_zeros(shape, dtype=float, *a, **k):
    return _full(shape, 0, dtype if dtype is not None else float)


def f_ones(shape, dtype=float, *a, **k):
    return _full(shape, 1, dtype if dtype is not None else float)


def f_empty(shape, dtype=float, *a, **k):
    return _full(shape, NAN if vd_of(dtype) not in ("int", "bool") else 0, dtype)


def f_full(shape, v, dtype=None, **k):
    return _full(shape, v, dtype)


def f_like(v):
    def f(a, dtype=None, *x, **k):
        a = _arr(a)
        return _full(a.shape, v, dtype if dtype is not None else VDType(a.vd or "float"))

    return f


def f_full_like(a, v, dtype=None, **k):
    a = _arr(a)
    return _full(a.shape, v, dtype if dtype is not None else VDType(a.vd or "float"))


def f_eye(n, M=None, k=0, dtype=float, **kw):
    return SymArray.wrap(np.eye(int(n), M, k), vd_of(dtype)).astype(dtype)


def f_arange(*a, **k):
    a = [int(operator.index(x)) if isinstance(x, SymNum) and x.isint else x for x in a]
    if any(isinstance(x, SymNum) for x in a):
        raise Unsupported("arange of symbolic")
    k.pop("dtype", None)
    return SymArray.make(np.arange(*a, **k))


def f_linspace(a, b, num=50, **k):
    if isinstance(a, SYM) or isinstance(b, SYM):
        n = int(num)
        return SymArray.make([a + (b - a) * Fraction(i, n - 1) if n > 1 else a for i in range(n)], "float")
    return SymArray.make(np.linspace(a, b, int(num), **k))


def _joined(fn):
    def f(arrs, *a, **k):
        arrs = [_arr(x) for x in arrs]
        k.pop("dtype", None)
        if not arrs:
            raise ValueError("need at least one array to concatenate")
        vd = promote([x.vd for x in arrs if True])
        r = fn([x.view(np.ndarray) for x in arrs], *a, **k)
        r = SymArray.wrap(r, vd)
        return SymArray.make(r, vd)

    return f


def f_append(a, b, axis=None):
    a, b = _arr(a), _arr(b)
    if axis is None:
        a, b = a.reshape(-1), b.reshape(-1)
    return _joined(np.concatenate)([a, b], axis=axis or 0)


def f_where(c, *ab):
    if not ab:
        return _arr(c).nonzero()
    a, b = ab
    vd = promote([_vd_in(a), _vd_in(b)])
    r = emap(lambda c, a, b: ite(c, a, b), c, a, b, vd=vd)
    return r


def f_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a
    if lo is not None:
        r = apply_uf("maximum", (r, lo))
    if hi is not None:
        r = apply_uf("minimum", (r, hi))
    if out is not None:
        out[...] = r
        return out
    if not isinstance(r, np.ndarray) and isinstance(r, SymNum):
        r = SymNum(r.p, r.isint, True, r.nn)
    if not isinstance(r, np.ndarray) and isinstance(r, float):
        r = np.float64(r)
    return r


def f_sum(a, axis=None, dtype=None, keepdims=False, **k):
    if isinstance(a, types.GeneratorType):
        return builtins.sum(a)
    r = reduce_(operator.add, _arr(a), 0, axis)
    return np.expand_dims(r, axis) if keepdims else r


def f_mean(a, axis=None, **k):
    a = _arr(a)
    n = a.size if axis is None else a.shape[axis]
    return f_sum(a, axis) / n


def f_amax(a, axis=None, initial=None, **k):
    if initial is not None:
        return s_max(initial, reduce_(s_max, _arr(a), initial, axis))
    return reduce_(s_max, _arr(a), None, axis)


def f_amin(a, axis=None, initial=None, **k):
    if initial is not None:
        return s_min(initial, reduce_(s_min, _arr(a), initial, axis))
    return reduce_(s_min, _arr(a), None, axis)


def f_any(a, axis=None, **k):
    r = reduce_(lambda x, y: b_or(s_bool(x), s_bool(y)), _arr(a), False, axis, True)
    if isinstance(r, SymArray):
        r.vd = "bool"
    return r


def f_all(a, axis=None, **k):
    r = reduce_(lambda x, y: b_and(s_bool(x), s_bool(y)), _arr(a), True, axis, True)
    if isinstance(r, SymArray):
        r.vd = "bool"
    return r


def f_cumsum(a, axis=None, **k):
    a = _arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum nd")
    out, s = [], None
    for x in a:
        s = x if s is None else s + x
        out.append(s)
    return SymArray.make(out, a.vd)


def f_argm(a, better):
    a = _arr(a).reshape(-1)
    best, bi = a[0], 0
    for i in range(1, a.size):
        if bool(better(a[i], best)):
            best, bi = a[i], i
    return bi


def f_dot(a, b, out=None):
    if hasattr(a, "toarray"):
        return a.dot(b)
    if hasattr(b, "toarray"):
        return _arr(a).__array_wrap__(a) if False else _dot_dense(_arr(a), _arr(b.toarray()))
    if not isinstance(a, (np.ndarray, list, tuple)) or not isinstance(b, (np.ndarray, list, tuple)):
        return a * b
    return _dot_dense(_arr(a), _arr(b))


def _dot_dense(a, b):
    vd = promote([a.vd, b.vd])
    A, B = a.view(np.ndarray), b.view(np.ndarray)
    if A.ndim == 0 or B.ndim == 0:
        return emap(lambda x, y: x * y, a, b, vd=vd)
    k = A.shape[-1]
    kb = B.shape[0] if B.ndim == 1 else B.shape[-2]
    if k != kb:
        raise ValueError("shapes %s and %s not aligned" % (A.shape, B.shape))
    if A.ndim > 2 or B.ndim > 2:
        raise Unsupported("dot nd")

    def inner(u, v):
        s = None
        for x, y in zip(u, v):
            if (not isinstance(x, SYM) and isinstance(x, (int, float)) and x == 0 and s is not None) or (not isinstance(y, SYM) and isinstance(y, (int, float)) and y == 0 and s is not None):
                if not (isinstance(x, float) and not math.isfinite(x)) and not (isinstance(y, float) and not math.isfinite(y)):
                    continue
            t = x * y
            s = t if s is None else s + t
        return 0.0 if s is None else s

    if A.ndim == 1 and B.ndim == 1:
        return inner(A, B)
    if A.ndim == 2 and B.ndim == 1:
        out = np.empty(A.shape[0], dtype=object)
        for i in range(A.shape[0]):
            out[i] = inner(A[i], B)
    elif A.ndim == 1:
        out = np.empty(B.shape[1], dtype=object)
        for j in range(B.shape[1]):
            out[j] = inner(A, B[:, j])
    else:
        out = np.empty((A.shape[0], B.shape[1]), dtype=object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[i, j] = inner(A[i], B[:, j])
    return SymArray.wrap(out, vd)


def f_conj(a):
    if hasattr(a, "toarray"):
        return a.conj()
    return apply_uf("conjugate", (a,))


def f_real(a):
    if isinstance(a, (list, tuple)):
        a = _arr(a)
    return a.real


def f_imag(a):
    if isinstance(a, (list, tuple)):
        a = _arr(a)
    return a.imag


def f_angle(a, deg=False):
    r = emap(s_angle, a, vd="float" if isinstance(a, (np.ndarray, list, tuple)) else None)
    if deg:
        r = r * 180 / math.pi
    return r


def f_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def one(x, y):
        if x is y:
            return True
        for u, v in ((x, y), (y, x)):
            if not isinstance(u, SYM) and not s_isfinite(u):
                return (not isinstance(v, SYM)) and u == v
        return abs(x - y) <= atol + rtol * abs(y)

    return emap(one, a, b, vd="bool" if isinstance(a, np.ndarray) or isinstance(b, np.ndarray) else None)


def f_allclose(a, b, **k):
    r = f_isclose(a, b, **k)
    return f_all(r) if isinstance(r, np.ndarray) else r


def f_array_equal(a, b, **k):
    a, b = _arr(a), _arr(b)
    if a.shape != b.shape:
        return False
    return f_all(apply_uf("equal", (a, b)))


def f_norm(x, ord=None, axis=None, **k):
    x = _arr(x)
    if axis is not None or x.ndim != 1:
        if not (x.ndim == 2 and ord in (None, "fro")):
            raise Unsupported("norm")
        x = x.reshape(-1)
    if ord in (None, 2, "fro"):
        s = 0.0
        for v in x:
            s = s + abs(v) ** 2
        return s_sqrt(s)
    ab = emap(abs, x, vd="float")
    if ord == np.inf:
        return f_amax(ab) if x.size else 0.0
    if ord == -np.inf:
        return f_amin(ab)
    if ord == 1:
        return f_sum(ab)
    raise Unsupported("norm ord")


def f_isin(a, b, **k):
    b = list(_arr(b).reshape(-1))
    return emap(lambda x: b_or(*[x == y for y in b]), a, vd="bool")


def f_unique(a, **k):
    if k and any(k.values()):
        raise Unsupported("unique options")
    out = []
    for x in sorted(list(_arr(a).reshape(-1))):
        if not out or not bool(out[-1] == x):
            out.append(x)
    return SymArray.make(out)


def f_diff(a, n=1, **k):
    a = _arr(a)
    for _ in range(n):
        a = a[1:] - a[:-1]
    return a


def f_sort(a, **k):
    return SymArray.make(sorted(list(_arr(a))))


def f_argsort(a, **k):
    import functools

    v = list(_arr(a))
    return SymArray.make(sorted(range(len(v)), key=lambda i: v[i]))


def f_outer(a, b, **k):
    a, b = _arr(a).reshape(-1), _arr(b).reshape(-1)
    return apply_uf("multiply", (a[:, None], b[None, :]))


def f_count_nonzero(a, **k):
    return f_sum([core.SymBool.num(x) if isinstance(x, SymBool) else int(bool(x)) for x in [core._truthy(y) for y in _arr(a).reshape(-1)]])


def f_nan_to_num(a, nan=0.0, **k):
    return emap(lambda x: nan if s_isnan(x) else x, a)


def f_diag(a, k=0):
    a = _arr(a)
    return SymArray.wrap(np.diag(a.view(np.ndarray), k) if a.ndim == 2 else _diag_build(a, k), a.vd)


def _diag_build(a, k):
    n = a.shape[0] + abs(k)
    out = np.empty((n, n), dtype=object)
    out[...] = 0
    for i in range(a.shape[0]):
        out[(i, i + k) if k >= 0 else (i - k, i)] = a[i]
    return out


def f_can_cast(a, b, casting="safe"):
    va = vd_of(a) if not isinstance(a, np.ndarray) else _vd_in(a)
    vb = vd_of(b)
    if va == "object":
        return vb == "object"
    if va == "int" and vb == "float32":
        return False
    return RANK[va] <= RANK[vb]


def f_issubdtype(a, b):
    if isinstance(a, VDType):
        a = a.type
    if isinstance(a, DT):
        a = a.real
    if isinstance(b, DT):
        b = b.real
    return np.issubdtype(getattr(a, "_sx_real", a), getattr(b, "_sx_real", b))


def f_dtype(t):
    return VDType(vd_of(t))


def f_shape(a):
    return _shape_of(a) if not isinstance(a, np.ndarray) else a.shape


def f_size(a, axis=None):
    a = _arr(a)
    return a.size if axis is None else a.shape[axis]


def f_interp(*a, **k):
    raise Unsupported("np.interp")


def f_cross(*a, **k):
    raise Unsupported("np.cross")


def f_solve(A, b):
    from . import spshim

    return spshim.linsolve(A, b)


def f_vectorize(pyfunc, *a, **k):
    return lambda *args: emap(pyfunc, *args)


def f_ravel_list(a):
    return _arr(a).reshape(-1)


def f_around(a, decimals=0, **k):
    return emap(lambda x: core.as_float(num_round(x, decimals)) if isinstance(x, SymNum) else (round(x, decimals) if fin(x) else x), a)


class NpLinalg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        super().__init__("numpy.linalg")
        self.norm = f_norm
        self.solve = f_solve

    def __getattr__(self, n):
        raise Unsupported("numpy.linalg.%s" % n)


class GlobalRandom(types.ModuleType):
    """numpy's global generator: its use is recorded as reading hidden state."""

    def __init__(self, name="numpy.random"):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("Generator", "RandomState", "BitGenerator", "PCG64", "SeedSequence"):
            return getattr(np.random, n)

        if n == "default_rng":
            def mk(seed=None, *a, **k):
                from . import api

                return api.SymRNG("np.random.default_rng" if seed is None else "np.random.default_rng(%s)" % (seed,), hidden=seed is None)

            return mk

        def f(*a, **k):
            from . import api

            return api.SymRNG(self.__name__, hidden=True).draw(n, a, k)

        return f


class NpShim(types.ModuleType):
    """Stand-in for the numpy module."""

    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(DTYPES)
        for n in UF:
            d[n] = self._mk_uf(n)
        d["abs"] = d["absolute"]
        d["conj"] = f_conj
        d["conjugate"] = f_conj
        d["amax"] = d["max"] = f_amax
        d["amin"] = d["min"] = f_amin
        d["round"] = d["round_"] = d["around"] = f_around
        d.update(array=f_array, asarray=f_asarray, asanyarray=f_asarray, ascontiguousarray=f_asarray, atleast_1d=lambda a: _arr(a) if np.ndim(_objarray(a)) else _arr([a]),
                 zeros=f_zeros, ones=f_ones, empty=f_empty, full=f_full, zeros_like=f_like(0), ones_like=f_like(1), empty_like=f_like(0),
                 full_like=f_full_like, eye=f_eye, identity=f_eye, arange=f_arange, linspace=f_linspace, concatenate=_joined(np.concatenate), hstack=_joined(np.hstack),
                 vstack=_joined(np.vstack), stack=_joined(np.stack), column_stack=_joined(np.column_stack), row_stack=_joined(np.vstack), append=f_append,
                 where=f_where, clip=f_clip, sum=f_sum, nansum=f_sum, mean=f_mean, any=f_any, all=f_all, cumsum=f_cumsum, prod=lambda a, axis=None, **k: reduce_(operator.mul, _arr(a), 1, axis),
                 dot=f_dot, matmul=f_dot, inner=f_dot, vdot=lambda a, b: f_dot(f_conj(_arr(a).reshape(-1)), _arr(b).reshape(-1)), outer=f_outer, real=f_real, imag=f_imag, angle=f_angle,
                 isclose=f_isclose, allclose=f_allclose, array_equal=f_array_equal, isin=f_isin, in1d=f_isin, unique=f_unique, diff=f_diff, sort=f_sort, argsort=f_argsort,
                 argmax=lambda a, **k: f_argm(a, operator.gt), argmin=lambda a, **k: f_argm(a, operator.lt), count_nonzero=f_count_nonzero, nan_to_num=f_nan_to_num,
                 nonzero=lambda a: _arr(a).nonzero(), flatnonzero=lambda a: _arr(a).reshape(-1).nonzero()[0], argwhere=lambda a: np.transpose(_arr(a).nonzero()), diag=f_diag, can_cast=f_can_cast,
                 issubdtype=f_issubdtype, dtype=f_dtype, result_type=lambda *a: VDType(promote([_vd_in(x) for x in a])), shape=f_shape, size=f_size, ndim=lambda a: len(f_shape(a)), interp=f_interp, cross=f_cross,
                 vectorize=f_vectorize, ravel=f_ravel_list, linalg=NpLinalg(), random=GlobalRandom(), bool=DTYPES["bool_"],
                 isneginf=lambda a: emap(lambda x: not isinstance(x, SYM) and x == -INF, a), isposinf=lambda a: emap(lambda x: not isinstance(x, SYM) and x == INF, a),
                 isreal=lambda a: emap(lambda x: not isinstance(x, (complex, SymComplex)), a), iscomplexobj=lambda a: _vd_in(a) == "complex",
                 isscalar=lambda x: isinstance(x, SYM) or np.isscalar(x), copy=lambda a, **k: SymArray.make(a), trapz=f_interp, ptp=lambda a: f_amax(a) - f_amin(a),
                 median=f_interp, float_=DTYPES["float64"], fromiter=lambda it, dtype=None, **k: SymArray.make(list(it), vd_of(dtype)), divide=d["divide"],
                 nanmax=f_amax, nanmin=f_amin, copysign=lambda a, b: emap(lambda x, y: ite(y >= 0, num_abs(x), -num_abs(x)), a, b), average=lambda a, **k: f_mean(a),
                 var=f_interp, std=f_interp, log=f_interp, cbrt=f_interp, tan=f_interp, arccos=f_interp, arcsin=f_interp)

    @staticmethod
    def _mk_uf(n):
        def f(*args, out=None, where=True, dtype=None, **k):
            if isinstance(out, tuple):
                out = out[0]
            if not any(has_sym(a) or isinstance(a, (list, tuple)) for a in args) and out is None and not any(isinstance(a, np.ndarray) for a in args):
                with np.errstate(all="ignore"):
                    return getattr(np, n)(*args)
            r = apply_uf(n, args, out, where)
            if isinstance(r, SymNum) and not r.isnp:
                r = SymNum(r.p, r.isint, True, r.nn)
            return r

        f.__name__ = n
        f.reduce = lambda a, axis=0, **k: ufunc_dispatch(getattr(np, n), "reduce", (_arr(a),), dict(axis=axis, **k))
        f.outer = lambda a, b: ufunc_dispatch(getattr(np, n), "outer", (a, b), {})
        f.accumulate = lambda a: ufunc_dispatch(getattr(np, n), "accumulate", (a,), {})
        f.at = lambda *a: ufunc_dispatch(getattr(np, n), "at", a, {})
        return f

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(np, n)
        if isinstance(r, (float, int, str)) or r is None or isinstance(r, type) or isinstance(r, types.ModuleType):
            return r
        if callable(r):
            def f(*a, **k):
                res = r(*[_conv(x) for x in a], **{q: _conv(v) for q, v in k.items()})
                return _post(res)

            f.__name__ = n
            return f
        return r


def _conv(x):
    if isinstance(x, (list, tuple)) and has_sym(x):
        try:
            return type(x)(_conv(y) for y in x) if any(isinstance(y, np.ndarray) for y in x) else SymArray.make(x)
        except ValueError:
            return x
    return x


def _post(r):
    if isinstance(r, np.ndarray) and not isinstance(r, SymArray):
        return SymArray.wrap(r)
    if isinstance(r, tuple):
        return tuple(_post(x) for x in r)
    if isinstance(r, list):
        return [_post(x) for x in r]
    return r


np_shim = NpShim()
