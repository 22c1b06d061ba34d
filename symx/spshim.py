"""scipy.sparse for the modules under test: dense matrices of symbolic scalars, and the linear
solver as an environment stub (see `linsolve`)."""
import types
import numpy as np
from . import core, npshim
from .core import SymNum, SymComplex, Unsupported, NAN
from .npshim import SymArray, f_dot, emap, _arr


def _dense(x):
    if isinstance(x, SpMat):
        return x.a
    return _arr(x)


class SpMat(object):
    """Dense stand-in for scipy's sparse matrices (spmatrix semantics: * is the matrix product)."""

    __array_priority__ = 1000.0
    __array_ufunc__ = None

    def __init__(self, arg=None, shape=None, dtype=None, copy=False, fmt="csr"):
        self.format = fmt
        if isinstance(arg, SpMat):
            a = arg.a
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            v, (i, j) = arg
            v = list(_arr(v).reshape(-1))
            i = [int(x) for x in _arr(i).reshape(-1)]
            j = [int(x) for x in _arr(j).reshape(-1)]
            if shape is None:
                shape = ((max(i) + 1) if i else 0, (max(j) + 1) if j else 0)
            a = np.empty(shape, dtype=object)
            a[...] = 0.0
            for x, r, c in zip(v, i, j):
                cur = a[r, c]
                a[r, c] = x if (not isinstance(cur, core.SymNum) and not isinstance(cur, core.SymComplex) and cur == 0) else cur + x
            a = SymArray.wrap(a)
        elif isinstance(arg, tuple) and len(arg) == 2 and all(isinstance(x, (int, np.integer)) for x in arg):
            a = npshim.f_zeros(arg, dtype or float)
        elif isinstance(arg, tuple) and len(arg) == 3:
            raise Unsupported("sparse constructor")
        else:
            a = SymArray.make(arg)
            if a.ndim == 1:
                a = a[None, :]
        if dtype is not None:
            a = a.astype(dtype)
        self.a = a
        self.shape = a.shape
        self.ndim = 2

    @classmethod
    def mk(cls, a, fmt="csr"):
        r = cls.__new__(cls)
        r.format = fmt
        if not isinstance(a, SymArray):
            a = SymArray.make(a)
        r.a = a
        r.shape = a.shape
        r.ndim = 2
        return r

    @property
    def dtype(self):
        return npshim.VDType(self.a.vd or "float")

    @property
    def nnz(self):
        return sum(1 for x in self.a.reshape(-1) if bool(x != 0))

    @property
    def T(self):
        return SpMat.mk(self.a.T)

    def transpose(self, *a, **k):
        return self.T

    def toarray(self, *a, **k):
        return self.a.copy()

    def todense(self, *a, **k):
        return self.a.copy()

    def tocsr(self, *a, **k):
        return self

    tocsc = tocoo = tolil = todok = asformat = copy = tocsr

    def conj(self, *a, **k):
        return SpMat.mk(npshim.f_conj(self.a))

    conjugate = conj

    @property
    def real(self):
        return SpMat.mk(self.a.real)

    @property
    def imag(self):
        return SpMat.mk(self.a.imag)

    @property
    def data(self):
        return self.a.reshape(-1)

    def diagonal(self, k=0):
        return npshim.f_diag(self.a, k)

    def astype(self, t, *a, **k):
        return SpMat.mk(self.a.astype(t))

    def __getitem__(self, key):
        r = self.a[key]
        if isinstance(r, np.ndarray):
            if r.ndim == 1:
                if isinstance(key, tuple) and len(key) == 2 and not isinstance(key[0], (int, np.integer)) and isinstance(key[1], (int, np.integer)):
                    r = r[:, None]
                else:
                    r = r[None, :]
            return SpMat.mk(r)
        return r

    def __setitem__(self, key, v):
        self.a[key] = _dense(v) if isinstance(v, (SpMat, np.ndarray, list)) else v

    def dot(self, o):
        if isinstance(o, SpMat):
            return SpMat.mk(f_dot(self.a, o.a))
        if isinstance(o, (np.ndarray, list, tuple)):
            return f_dot(self.a, _arr(o))
        return SpMat.mk(self.a * o)

    def __matmul__(self, o):
        return self.dot(o)

    def __rmatmul__(self, o):
        if isinstance(o, SpMat):
            return SpMat.mk(f_dot(o.a, self.a))
        return f_dot(_arr(o), self.a)

    def __mul__(self, o):
        return self.dot(o)

    def __rmul__(self, o):
        if isinstance(o, (np.ndarray, list, tuple)) and npshim._shape_of(o) != ():
            return f_dot(_arr(o), self.a)
        return SpMat.mk(self.a * o)

    def multiply(self, o):
        return SpMat.mk(self.a * _dense(o) if isinstance(o, (SpMat, np.ndarray, list)) else self.a * o)

    def __truediv__(self, o):
        return SpMat.mk(self.a / o)

    def __add__(self, o):
        r = self.a + _dense(o) if isinstance(o, (SpMat, np.ndarray)) else self.a + o
        return SpMat.mk(r) if isinstance(o, SpMat) or not isinstance(o, np.ndarray) else r

    __radd__ = __add__

    def __sub__(self, o):
        r = self.a - _dense(o)
        return SpMat.mk(r) if isinstance(o, SpMat) else r

    def __rsub__(self, o):
        r = _dense(o) - self.a
        return SpMat.mk(r) if isinstance(o, SpMat) else r

    def __neg__(self):
        return SpMat.mk(-self.a)

    def __abs__(self):
        return SpMat.mk(abs(self.a))

    def power(self, n):
        return SpMat.mk(self.a ** n)

    def sum(self, axis=None):
        return self.a.sum(axis=axis)

    def __repr__(self):
        return "<sparse>"


def _ctor(fmt):
    class C(SpMat):
        def __new__(cls, *a, **k):
            r = SpMat.__new__(SpMat)
            k.pop("format", None)
            SpMat.__init__(r, *a, fmt=fmt, **k)
            return r

    C.__name__ = fmt + "_matrix"
    return C


def _stack(fn):
    def f(blocks, format=None, dtype=None):
        return SpMat.mk(fn([_dense(b) for b in blocks]))

    return f


def sp_diags(d, offsets=0, shape=None, format=None, dtype=None):
    if isinstance(d, (list, tuple)) and d and isinstance(d[0], (list, tuple, np.ndarray)):
        if len(d) != 1:
            raise Unsupported("sparse.diags")
        d = d[0]
        offsets = offsets[0] if isinstance(offsets, (list, tuple)) else offsets
    return SpMat.mk(npshim.f_diag(_arr(d), int(offsets)))


def sp_bmat(blocks, format=None, dtype=None):
    rows = []
    for r in blocks:
        if any(x is None for x in r):
            raise Unsupported("bmat None")
        rows.append(npshim._joined(np.hstack)([_dense(x) for x in r]))
    return SpMat.mk(npshim._joined(np.vstack)(rows))


def linsolve(A, b, *args, **kw):
    """The linear solver as a stub: any vector of the right size may come back (a superset of
    what the real solver returns, including garbage), or NaN as scipy does for singular systems.
    After opts['nr_steps'] arbitrary results it returns zero (a stuck iteration)."""
    c = core.ctx()
    A = _dense(A)
    bb = _dense(b)
    n = A.shape[1]
    if A.shape[0] != A.shape[1]:
        raise ValueError("matrix must be square")
    if bb.reshape(-1).size != n:
        raise ValueError("incompatible dimensions")
    calls = c.stub_calls.setdefault("linsolve", [])
    k = len(calls)
    if "lin_script" in c.opts:
        j = k - c.opts["lin_base"]
        item = c.opts["lin_script"][j] if j < len(c.opts["lin_script"]) else "zero"
        hasnan = any(npshim.s_isnan(x) for x in A.reshape(-1)) or any(npshim.s_isnan(x) for x in bb.reshape(-1))
        kind = "any"
        if hasnan or isinstance(item, str) and item == "nan":
            kind = "nan"
            x = SymArray.make([NAN] * n, "float")
        elif isinstance(item, str) and item == "zero":
            kind = "zero"
            x = SymArray.make([0.0] * n, "float")
        elif isinstance(item, str) and item == "exact":
            kind = "exact"
            x = SymArray.make([c.fresh("lin%d" % k) for _ in range(n)], "float")
            bound = core.Fraction(str(c.opts.get("nr_bound", 3)))
            for v in x:
                c.add((v <= bound).z)
                c.add((v >= -bound).z)
                c.bounds[next(iter(v.p))[0][0]] = (-bound, bound)
            r = f_dot(A, x) - bb.reshape(-1)
            for v in r:
                c.assume(v == 0)
        else:
            # recorded before the script is asked, which may end the run
            calls.append(dict(A=A, b=bb, x=None, kind=kind))
            item = item(n) if callable(item) else item
            if len(item) != n:
                raise Unsupported("linear system of an unexpected size")
            x = SymArray.make(list(item), "float")
            calls[k]["x"] = x
            return x.copy()
        calls.append(dict(A=A, b=bb, x=x, kind=kind))
        return x.copy()
    limit = c.opts.get("nr_steps", 1)
    kind = "any"
    if any(npshim.s_isnan(x) for x in A.reshape(-1)) or any(npshim.s_isnan(x) for x in bb.reshape(-1)):
        kind = "nan"
    elif k >= limit:
        kind = "zero"
    elif c.opts.get("nr_nan", True) and k == 0:
        kind = "nan" if c.choose(2) == 1 else "any"
    if kind == "any":
        x = SymArray.make([c.fresh("lin%d" % k) for _ in range(n)], "float")
        bound = c.opts.get("nr_bound", 3)
        for v in x:
            c.add((v <= bound).z)
            c.add((v >= -bound).z)
    elif kind == "nan":
        x = SymArray.make([NAN] * n, "float")
    else:
        x = SymArray.make([0.0] * n, "float")
    calls.append(dict(A=A, b=bb, x=x, kind=kind))
    return x.copy()


class _Splu(object):
    def __init__(self, A):
        self.A = A

    def solve(self, b):
        return linsolve(self.A, b)


class MatrixRankWarning(UserWarning):
    pass


def make_modules():
    sp = types.ModuleType("scipy.sparse")
    la = types.ModuleType("scipy.sparse.linalg")
    root = types.ModuleType("scipy")
    for fmt in ("csc", "csr", "coo", "lil", "dok", "bsr", "dia"):
        setattr(sp, fmt + "_matrix", _ctor(fmt))
        setattr(sp, fmt + "_array", _ctor(fmt))
    sp.hstack = _stack(npshim._joined(np.hstack))
    sp.vstack = _stack(npshim._joined(np.vstack))
    sp.diags = sp_diags
    sp.bmat = sp.block_array = sp_bmat
    sp.eye = sp.identity = lambda n, *a, **k: SpMat.mk(npshim.f_eye(n))
    sp.issparse = sp.isspmatrix = lambda x: isinstance(x, SpMat)
    sp.spmatrix = SpMat
    la.spsolve = linsolve
    la.splu = la.factorized = _Splu
    la.factorized = lambda A: (lambda b: linsolve(A, b))
    la.MatrixRankWarning = MatrixRankWarning
    la.norm = npshim.f_norm
    sp.linalg = la
    root.sparse = sp
    dl = types.ModuleType("scipy.linalg")
    dl.solve = linsolve
    dl.norm = npshim.f_norm
    root.linalg = dl
    return {"scipy": root, "scipy.sparse": sp, "scipy.sparse.linalg": la, "scipy.linalg": dl}
