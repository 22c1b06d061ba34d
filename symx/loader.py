"""Loads the modules of /repo/gym_anm for symbolic execution: the same source, compiled from the
working tree, with numpy/scipy/cvxpy/gymnasium/datetime/... bound to the stand-ins."""
import ast, builtins, importlib, os, sys, types, warnings
import numpy as np
from . import core, npshim
from .core import SymNum, SymBool, SymComplex, Unsupported

SYM = (SymNum, SymBool, SymComplex)
REPO = os.environ.get("VP_REPO", "/repo")
PKG = "gym_anm"
CODE = {}       # module name -> (code, path, ispkg)
FUNCS = set()   # (file, qualname) of functions of the repository that were executed symbolically
_SHIMS = {}


# -- builtins -----------------------------------------------------------------------
def _typeshim(name, real, conv, inst):
    class M(type):
        def __instancecheck__(cls, x):
            return isinstance(x, real) or inst(x)

        def __subclasscheck__(cls, c):
            return issubclass(getattr(c, "_sx_real", c), real)

        def __call__(cls, *a, **k):
            return conv(*a, **k)

        def __eq__(cls, o):
            return o is cls or o is real

        def __hash__(cls):
            return hash(real)

        def __getattr__(cls, n):
            return getattr(real, n)

        def __repr__(cls):
            return repr(real)

        def __or__(cls, o):
            return real | getattr(o, "_sx_real", o)

    return M(name, (), {"_sx_real": real})


def _one(x):
    """The scalar of a one-element array."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        if x.size == 1:
            return x.reshape(-1)[0]
        raise TypeError("only length-1 arrays can be converted to Python scalars")
    return x


def _float(x=0.0):
    x = _one(x)
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, SymNum):
        return SymNum(x.p, False, False)
    if isinstance(x, SymComplex):
        raise TypeError("float() argument must be a string or a real number, not 'complex'")
    return float(x)


def _int(x=0, *a, **k):
    x = _one(x)
    if isinstance(x, SymBool):
        x = x.num()
    if isinstance(x, (SymNum, SymComplex)):
        return core.num_trunc(x)
    return int(x, *a, **k)


def _complex(re=0, im=0):
    re, im = _one(re), _one(im)
    if isinstance(re, SYM) or isinstance(im, SYM):
        return SymComplex.lift(re) + SymComplex(0, 1) * im
    return complex(re, im) if im != 0 or not isinstance(re, str) else complex(re)


def _bool(x=False):
    return bool(x)


INT = _typeshim("int", int, _int, lambda x: isinstance(x, SymNum) and x.isint and not x.isnp)
FLOAT = _typeshim("float", float, _float, lambda x: isinstance(x, SymNum) and not x.isint)
COMPLEX = _typeshim("complex", complex, _complex, lambda x: isinstance(x, SymComplex))
BOOL = _typeshim("bool", bool, _bool, lambda x: isinstance(x, SymBool))


def _ext(real, pick):
    def f(*a, key=None, **k):
        xs = list(a[0]) if len(a) == 1 else list(a)
        a = (xs,) if len(a) == 1 else a    # (an iterator is used up now)
        if key is not None or not any(isinstance(x, SYM) for x in xs):
            return real(*a, **k) if key is None else real(*a, key=key, **k)
        if any(isinstance(x, SymComplex) for x in xs):
            raise TypeError("'<' not supported between instances of 'complex' and 'complex'")
        r = xs[0]
        for x in xs[1:]:
            r = pick(r, x)
        return r

    f.__name__ = real.__name__
    return f


def _open(*a, **k):
    raise Unsupported("open()")


def _type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, SymNum):
            if x.isnp:
                return npshim.DTYPES["int64" if x.isint else "float64"]
            return INT if x.isint else FLOAT
        if isinstance(x, SymBool):
            return BOOL
        if isinstance(x, SymComplex):
            return COMPLEX
        t = type(x)
        return {int: INT, float: FLOAT, complex: COMPLEX, bool: BOOL, npshim.SymArray: np.ndarray}.get(t, t)
    return type(*a, **k)


def sx_mod(a, b):
    """a % b; formatting replaces symbolic operands by a placeholder of the same kind."""
    if isinstance(a, (str, bytes)):
        def ph(x):
            if isinstance(x, SymNum):
                return 0 if x.isint else 0.0
            if isinstance(x, SymBool):
                return False
            if isinstance(x, SymComplex):
                return 0j
            return x

        if isinstance(b, tuple):
            b = tuple(ph(x) for x in b)
        else:
            b = ph(b)
    return a % b


def make_builtins(space):
    d = dict(builtins.__dict__)
    d.update(int=INT, float=FLOAT, complex=COMPLEX, bool=BOOL, min=_ext(min, core.num_min), max=_ext(max, core.num_max),
             print=lambda *a, **k: None, open=_open, type=_TypeCallable(), _sx_mod=sx_mod, _sx_cond=core.cond_value, _sx_merge=core.cond_values, _sx_not=core.cond_not, input=_open, eval=_noeval, exec=_noeval)
    d["__import__"] = space.do_import
    return d


def _noeval(*a, **k):
    raise Unsupported("eval/exec")


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)

    def __call__(cls, *a, **k):
        return _type(*a, **k)

    def __eq__(cls, o):
        return o is cls or o is type

    def __hash__(cls):
        return hash(type)


def _TypeCallable():
    return _TypeMeta("type", (), {"_sx_real": type})


# -- source -------------------------------------------------------------------------
# Conditional assignments, conditional expressions and conditional returns of pure scalar
# expressions are merged into one if-then-else value instead of splitting the path
# (core.cond_values; it falls back to an ordinary branch whenever it cannot).
_PURE = (ast.Constant, ast.Name, ast.Attribute, ast.Subscript, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.IfExp, ast.Tuple,
         ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context)
_PURE_CALLS = {"abs", "max", "min", "float", "absolute", "fabs", "maximum", "minimum", "sqrt", "clip", "real", "imag", "conj", "conjugate", "square"}


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
            if (nm not in _PURE_CALLS and not str(nm).startswith("_sx_")) or any(isinstance(a, ast.Starred) for a in n.args):
                return False
        elif isinstance(n, (ast.Lambda, ast.arguments)):
            continue
        elif not isinstance(n, _PURE):
            return False
    return True


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


def _load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


def _target(t):
    if isinstance(t, ast.Name):
        return True
    if isinstance(t, ast.Attribute):
        return isinstance(t.value, ast.Name)
    if isinstance(t, ast.Subscript):
        return _pure(t.value) and _pure(t.slice) and not isinstance(t.slice, ast.Slice)
    return False


def _assigns(body):
    """{target source: (target, value expression)} of a block of plain assignments."""
    out = {}
    for st in body:
        if isinstance(st, ast.Assign) and len(st.targets) == 1:
            t, v = st.targets[0], st.value
            if isinstance(t, ast.Tuple):
                if not isinstance(v, ast.Tuple) or len(v.elts) != len(t.elts):
                    return None
                prs = list(zip(t.elts, v.elts))
            else:
                prs = [(t, v)]
        elif isinstance(st, ast.AugAssign):
            prs = [(st.target, ast.BinOp(left=_load(st.target), op=st.op, right=st.value))]
        elif isinstance(st, ast.If):
            inner = _chain(st)
            if inner is None:
                return None
            for k, (t, e) in inner.items():
                if k in out:
                    return None
                out[k] = (t, e)
            continue
        else:
            return None
        new = {}
        for t, v in prs:
            if not _target(t) or not _pure(v):
                return None
            k = ast.unparse(t)
            if k in out or k in new:
                return None
            src = ast.unparse(v)
            if any(o in src for o in out):
                return None
            new[k] = (t, v)
        out.update(new)
    return out


def _test(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return ast.Call(func=ast.Name(id="_sx_not", ctx=ast.Load()), args=[_test(e.operand)], keywords=[])
    return e


def _call(test, a, b):
    return ast.Call(func=ast.Name(id="_sx_cond", ctx=ast.Load()), args=[_test(test), _lam(a), _lam(b)], keywords=[])


def _chain(n):
    """The values assigned by an if statement, as expressions; None if it does anything else."""
    if not _pure(n.test):
        return None
    a = _assigns(n.body)
    b = _assigns(n.orelse) if n.orelse else {}
    if a is None or b is None or not (a or b):
        return None
    out = {}
    for k in list(a) + [k for k in b if k not in a]:
        t = (a.get(k) or b.get(k))[0]
        out[k] = (t, _call(n.test, a[k][1] if k in a else _load(t), b[k][1] if k in b else _load(t)))
    return out


class _Merge(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fun = 0

    def visit_FunctionDef(self, n):
        self.fun += 1
        self.generic_visit(n)
        self.fun -= 1
        return n

    def visit_ClassDef(self, n):
        f, self.fun = self.fun, 0
        self.generic_visit(n)
        self.fun = f
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if self.fun and _pure(n.body) and _pure(n.orelse) and _pure(n.test):
            return ast.copy_location(_call(n.test, n.body, n.orelse), n)
        return n

    def visit_If(self, n):
        m = None
        if self.fun:
            try:
                m = self.merged(n)
            except RecursionError:
                m = None
        self.generic_visit(n)
        if m is None:
            return n
        return self.wrap(n, m)

    def merged(self, n):
        """Statements of the merged form: all values first, then the assignments."""
        if not _pure(n.test):
            return None
        a = _assigns(n.body)
        b = _assigns(n.orelse) if n.orelse else {}
        if a is None or b is None or not (a or b):
            return None
        ts = {k: v[0] for k, v in list(a.items()) + list(b.items())}
        return a, b, ts

    def wrap(self, n, m):
        a, b, ts = m
        self.n += 1
        nm = "_sx_m%d" % self.n
        tup = lambda d: ast.Tuple(elts=[d[k][1] if k in d else _load(t) for k, t in ts.items()], ctx=ast.Load())
        get = ast.Assign(targets=[ast.Name(id=nm + "c", ctx=ast.Store())], value=_test(n.test))
        call = ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=ast.Call(func=ast.Name(id="_sx_merge", ctx=ast.Load()), args=[ast.Name(id=nm + "c", ctx=ast.Load()), _lam(tup(a)), _lam(tup(b))], keywords=[]))
        sets = []
        for i, (k, t) in enumerate(ts.items()):
            tt = ast.parse(k, mode="eval").body
            for x in ast.walk(tt):
                if hasattr(x, "ctx"):
                    x.ctx = ast.Load()
            tt.ctx = ast.Store()
            sets.append(ast.Assign(targets=[tt], value=ast.Subscript(value=ast.Name(id=nm, ctx=ast.Load()), slice=ast.Constant(i), ctx=ast.Load())))
        plain = ast.If(test=ast.Name(id=nm + "c", ctx=ast.Load()), body=n.body, orelse=n.orelse)
        sel = ast.If(test=ast.Compare(left=ast.Name(id=nm, ctx=ast.Load()), ops=[ast.IsNot()], comparators=[ast.Constant(None)]), body=sets, orelse=[plain])
        return [ast.copy_location(x, n) for x in (get, call, sel)]

    def block(self, body):
        """if c: return a [else:] return b"""
        out, i = [], 0
        while i < len(body):
            st = body[i]
            if self.fun and isinstance(st, ast.If) and len(st.body) == 1 and isinstance(st.body[0], ast.Return) and st.body[0].value is not None and _pure(st.test):
                o = st.orelse[0] if len(st.orelse) == 1 else body[i + 1] if not st.orelse and i + 1 < len(body) else None
                if isinstance(o, ast.Return) and o.value is not None and _pure(o.value) and _pure(st.body[0].value):
                    out.append(ast.copy_location(ast.Return(value=_call(st.test, st.body[0].value, o.value)), st))
                    i += 1 if st.orelse else 2
                    continue
            out.append(st)
            i += 1
        return out

    def generic_visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        return super().generic_visit(n)


class _Mod(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(func=ast.Name(id="_sx_mod", ctx=ast.Load()), args=[n.left, n.right], keywords=[]), n)
        return n


def find(name):
    parts = name.split(".")
    base = os.path.join(REPO, *parts)
    if os.path.isfile(os.path.join(base, "__init__.py")):
        return os.path.join(base, "__init__.py"), True
    if os.path.isfile(base + ".py"):
        return base + ".py", False
    if os.path.isdir(base):
        return None, True
    return None, None


def code_of(name):
    r = CODE.get(name)
    if r is None:
        path, ispkg = find(name)
        if ispkg is None:
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        code = None
        if path is not None:
            with open(path) as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                tree = _Merge().visit(_Mod().visit(ast.parse(src, path)))
                tree = ast.fix_missing_locations(tree)
                code = compile(tree, path, "exec")
        r = CODE[name] = (code, path, ispkg)
    return r


# -- stand-in modules ---------------------------------------------------------------
def shims():
    if not _SHIMS:
        from . import spshim, cpshim, gymshim, stdshim

        nps = npshim.NpShim()
        la = nps.linalg
        _SHIMS.update({"numpy": nps, "numpy.linalg": la, "numpy.random": nps.random})
        _SHIMS.update(spshim.make_modules())
        _SHIMS.update(cpshim.make_module())
        _SHIMS.update(gymshim.make_modules())
        _SHIMS.update(stdshim.make_modules())
    return _SHIMS


class Space(object):
    """One private copy of the package under test."""

    def __init__(self, patches=None):
        self.mods = {}
        self.shims = shims()
        self.patches = patches or {}
        self.builtins = make_builtins(self)

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            m = self.mods.get(name)
            if m is not None:
                return m
        code, path, ispkg = code_of(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        if ispkg:
            m.__path__ = [os.path.join(REPO, *name.split("."))]
        m.__dict__["__builtins__"] = self.builtins
        self.mods[name] = m
        if code is not None:
            exec(code, m.__dict__)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            setattr(self.mods[par], leaf, m)
        return m

    def ext(self, name):
        """A module from outside of the package."""
        if name in self.patches:
            return self.patches[name]
        if name in self.shims:
            return self.shims[name]
        root = name.split(".")[0]
        if root in self.shims:
            raise Unsupported("module %s is not encoded" % name)
        return importlib.import_module(name)

    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__") or ""
            parts = pkg.split(".")
            if level > 1:
                parts = parts[: len(parts) - (level - 1)]
            base = ".".join(parts)
            name = base + ("." + name if name else "")
        if name == PKG or name.startswith(PKG + "."):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split(".")[0])
            for f in fromlist:
                if f != "*" and not hasattr(m, f):
                    if find(name + "." + f)[1] is not None:
                        self.load(name + "." + f)
            return m
        m = self.ext(name)
        if fromlist:
            for f in fromlist:
                sub = name + "." + f
                if f != "*" and sub in self.shims and not hasattr(m, f):
                    setattr(m, f, self.shims[sub])
            return m
        root = name.split(".")[0]
        r = self.ext(root)
        # import a.b.c binds a; make the chain reachable
        cur, parts = r, name.split(".")
        for i in range(1, len(parts)):
            sub = ".".join(parts[: i + 1])
            if sub in self.shims and not hasattr(cur, parts[i]):
                setattr(cur, parts[i], self.shims[sub])
            cur = getattr(cur, parts[i], cur)
        return r


# -- which functions of the repository were executed ---------------------------------
_TOOL = 3


def start_tracing():
    mon = sys.monitoring
    try:
        mon.use_tool_id(_TOOL, "symx")
    except ValueError:
        pass
    pre = os.path.join(REPO, PKG) + os.sep

    def on_start(code, off):
        fn = code.co_filename
        if fn.startswith(pre) and code.co_name not in ("<module>", "<genexpr>", "<listcomp>", "<lambda>", "<dictcomp>"):
            FUNCS.add(fn[len(REPO) + 1:] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(_TOOL, mon.events.PY_START, on_start)
    mon.set_events(_TOOL, mon.events.PY_START)
    mon.restart_events()
