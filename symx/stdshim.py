"""Standard-library modules with symbolic-aware stand-ins: math, datetime, random, logging, time,
json, and I/O modules that are replaced by recorders."""
import types, math, datetime as _dt, builtins
from fractions import Fraction
import numpy as np
from . import core
from .core import SymNum, SymBool, SymComplex, Unsupported, num_floor, num_sqrt, num_cos, num_sin, num_abs, num_trunc, ite, b_and, b_or

SYM = (SymNum, SymBool, SymComplex)


# -- math ---------------------------------------------------------------------------
def make_math():
    m = types.ModuleType("math")
    for n in dir(math):
        if not n.startswith("__"):
            setattr(m, n, _guard(n, getattr(math, n)))

    def ov(n, f):
        real = getattr(math, n)
        setattr(m, n, lambda *a, **k: f(*a, **k) if any(isinstance(x, SYM) for x in a) else real(*a, **k))

    ov("floor", num_floor)
    ov("ceil", lambda x: -num_floor(-x))
    ov("trunc", num_trunc)

    def sq(x):
        if bool(x < 0):
            raise ValueError("math domain error")
        return num_sqrt(x)

    ov("sqrt", sq)
    ov("cos", num_cos)
    ov("sin", num_sin)
    ov("fabs", lambda x: core.as_float(num_abs(x)))
    ov("isnan", lambda x: False)
    ov("isinf", lambda x: False)
    ov("isfinite", lambda x: True)
    ov("hypot", lambda a, b: abs(SymComplex(a, b)))
    ov("atan2", lambda y, x: core.num_angle(x, y))
    ov("radians", lambda x: x * math.pi / 180)
    ov("degrees", lambda x: x * 180 / math.pi)
    ov("pow", lambda x, n: x ** n)
    ov("copysign", lambda a, b: ite(b >= 0, num_abs(a), -num_abs(a)))
    ov("fmod", lambda a, b: ite(a >= 0, num_abs(a) % num_abs(b), -(num_abs(a) % num_abs(b))))
    ov("modf", lambda x: (x - num_trunc(x), core.as_float(num_trunc(x))))

    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        d = abs(a - b)
        return b_or(d <= rel_tol * core.num_max(abs(a), abs(b)), d <= abs_tol)

    ov("isclose", isclose)
    m.fsum = lambda xs: builtins.sum(xs, 0.0)
    m.prod = lambda xs, start=1: _prod(xs, start)
    return m


def _prod(xs, r):
    for x in xs:
        r = r * x
    return r


def _guard(n, f):
    if not callable(f):
        return f

    def g(*a, **k):
        if any(isinstance(x, SYM) for x in a):
            raise Unsupported("math.%s" % n)
        return f(*a, **k)

    return g


# -- datetime -----------------------------------------------------------------------
US = 1000000


def _num(x):
    """Exact number of a symbolic or concrete scalar."""
    if isinstance(x, SYM):
        return SymNum.lift(x)
    return core.frac(x)


class timedelta(object):
    """A duration as an exact number of seconds."""

    def __init__(self, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
        t = _num(seconds) + _num(days) * 86400 + _num(minutes) * 60 + _num(hours) * 3600 + _num(weeks) * 604800 + _num(milliseconds) * Fraction(1, 1000) + _num(microseconds) * Fraction(1, US)
        self.t = t

    @classmethod
    def mk(cls, t):
        r = timedelta.__new__(timedelta)
        r.t = t
        return r

    def total_seconds(self):
        return _out(self.t)

    @property
    def days(self):
        return _out(_floor(self.t, 86400))

    @property
    def seconds(self):
        return _out(_floor(self.t - _floor(self.t, 86400) * 86400, 1))

    @property
    def microseconds(self):
        return _out(_floor((self.t - _floor(self.t, 1)) * US, 1))

    def __add__(self, o):
        if isinstance(o, timedelta):
            return timedelta.mk(self.t + o.t)
        if isinstance(o, datetime):
            return o + self
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, timedelta):
            return timedelta.mk(self.t - o.t)
        return NotImplemented

    def __neg__(self):
        return timedelta.mk(-self.t)

    def __abs__(self):
        return timedelta.mk(abs(self.t))

    def __mul__(self, o):
        if isinstance(o, (int, float, Fraction, np.number) + SYM):
            return timedelta.mk(self.t * _num(o))
        return NotImplemented

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, timedelta):
            return _out(core.num_div(SymNum.lift(self.t), o.t if isinstance(o.t, SymNum) else float(o.t)))
        return timedelta.mk(core.num_div(SymNum.lift(self.t), o))

    def __floordiv__(self, o):
        if isinstance(o, timedelta):
            q = core.num_div(SymNum.lift(self.t), o.t if isinstance(o.t, SymNum) else o.t)
            return num_floor(q)
        raise Unsupported("timedelta //")

    def __mod__(self, o):
        return timedelta.mk(self.t - (self // o) * o.t)

    def _cmp(self, o, op):
        if not isinstance(o, timedelta):
            return NotImplemented
        d = SymNum.lift(self.t) - SymNum.lift(o.t)
        return core.num_cmp(d, 0, op)

    __lt__ = lambda s, o: s._cmp(o, "<")
    __le__ = lambda s, o: s._cmp(o, "<=")
    __gt__ = lambda s, o: s._cmp(o, ">")
    __ge__ = lambda s, o: s._cmp(o, ">=")
    __eq__ = lambda s, o: s._cmp(o, "==") if isinstance(o, timedelta) else False
    __ne__ = lambda s, o: s._cmp(o, "!=") if isinstance(o, timedelta) else True
    __hash__ = lambda s: hash(s.t)

    def __bool__(self):
        return bool(self != timedelta())

    def __repr__(self):
        return "<timedelta>"

    __format__ = lambda s, f: "<timedelta>"

    def __deepcopy__(self, memo):
        return self


def _floor(t, n):
    if isinstance(t, SymNum):
        q = t * Fraction(1, n)
        if q.isconst():
            return math.floor(q.cval())
        return num_floor(q)
    return math.floor(t / n)


def _out(t):
    if isinstance(t, SymNum):
        return core.simp(t)
    if isinstance(t, Fraction):
        return int(t) if t.denominator == 1 else float(t)
    return t


_EPOCH = _dt.datetime(1, 1, 1)


class date(object):
    pass


class datetime(date):
    """A point in time as an exact number of seconds since 0001-01-01."""

    def __init__(self, year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0, tzinfo=None):
        if any(isinstance(x, SYM) for x in (year, month, day)):
            year, month, day = [int(x.concretize()) if isinstance(x, SymNum) else x for x in (year, month, day)]
        base = _dt.datetime(year, month, day)
        self.t = Fraction((base - _EPOCH).days * 86400) + _num(hour) * 3600 + _num(minute) * 60 + _num(second) + _num(microsecond) * Fraction(1, US)

    @classmethod
    def mk(cls, t):
        r = datetime.__new__(datetime)
        r.t = t
        return r

    @staticmethod
    def now(tz=None):
        raise Unsupported("datetime.now")

    today = utcnow = now

    @classmethod
    def fromordinal(cls, n):
        return datetime.mk(_num(n - 1) * 86400)

    def toordinal(self):
        return _out(_floor(self.t, 86400)) + 1

    def __add__(self, o):
        if isinstance(o, (timedelta, _dt.timedelta)):
            return datetime.mk(self.t + (o.t if isinstance(o, timedelta) else core.frac(o.total_seconds())))
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, datetime):
            return timedelta.mk(self.t - o.t)
        if isinstance(o, timedelta):
            return datetime.mk(self.t - o.t)
        return NotImplemented

    def _civil(self):
        d = _floor(self.t, 86400)
        if isinstance(d, SymNum):
            d = int(d.concretize())
        return _EPOCH + _dt.timedelta(days=int(d))

    year = property(lambda s: s._civil().year)
    month = property(lambda s: s._civil().month)
    day = property(lambda s: s._civil().day)

    def _sod(self):
        return self.t - _floor(self.t, 86400) * 86400

    hour = property(lambda s: _out(_floor(s._sod(), 3600)))
    minute = property(lambda s: _out(_floor(s._sod(), 60) - _floor(s._sod(), 3600) * 60))
    second = property(lambda s: _out(_floor(s._sod(), 1) - _floor(s._sod(), 60) * 60))
    microsecond = 0

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None, microsecond=None):
        c = self._civil()
        return datetime(year if year is not None else c.year, month if month is not None else c.month, day if day is not None else c.day,
                        self.hour if hour is None else hour, self.minute if minute is None else minute, self.second if second is None else second)

    def date(self):
        return datetime.mk(_num(_floor(self.t, 86400)) * 86400)

    def timetuple(self):
        raise Unsupported("timetuple")

    def strftime(self, f):
        return "<date>"

    def isoformat(self, *a):
        return "<date>"

    def _cmp(self, o, op):
        if not isinstance(o, datetime):
            return NotImplemented
        return core.num_cmp(SymNum.lift(self.t) - SymNum.lift(o.t), 0, op)

    __lt__ = lambda s, o: s._cmp(o, "<")
    __le__ = lambda s, o: s._cmp(o, "<=")
    __gt__ = lambda s, o: s._cmp(o, ">")
    __ge__ = lambda s, o: s._cmp(o, ">=")
    __eq__ = lambda s, o: s._cmp(o, "==") if isinstance(o, datetime) else False
    __ne__ = lambda s, o: s._cmp(o, "!=") if isinstance(o, datetime) else True
    __hash__ = lambda s: hash(s.t)

    def __repr__(self):
        return "<datetime>"

    __format__ = lambda s, f: "<datetime>"

    def __deepcopy__(self, memo):
        return self


def make_datetime():
    m = types.ModuleType("datetime")
    m.timedelta, m.datetime, m.date = timedelta, datetime, date
    m.MINYEAR, m.MAXYEAR = 1, 9999
    m.timezone = _dt.timezone
    return m


# -- others -------------------------------------------------------------------------
class _Logger(object):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return lambda *a, **k: None

    level = 0

    def isEnabledFor(self, *a):
        return False


def make_logging():
    import logging

    m = types.ModuleType("logging")
    for n in dir(logging):
        if n.isupper():
            setattr(m, n, getattr(logging, n))
    m.getLogger = lambda *a, **k: _Logger()
    for n in ("debug", "info", "warning", "warn", "error", "critical", "exception", "log", "basicConfig", "captureWarnings"):
        setattr(m, n, lambda *a, **k: None)
    m.StreamHandler = m.FileHandler = m.Formatter = m.Handler = m.NullHandler = lambda *a, **k: _Logger()
    m.Logger = _Logger
    return m


class Recorder(types.ModuleType):
    """A module whose functions must be replaced by the harness before they are used."""

    def __init__(self, name, classes=()):
        super().__init__(name)
        for c in classes:
            setattr(self, c, type(c, (object,), {"__init__": lambda s, *a, **k: self._no(c)}))

    def _no(self, n):
        raise Unsupported("%s.%s used without a stand-in" % (self.__name__, n))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)

        def f(*a, **k):
            self._no(n)

        return f


def make_random():
    from .npshim import GlobalRandom

    return GlobalRandom("random")


class JsonDoc(str):
    """A JSON text that remembers the value it encodes."""

    doc = None


def make_json():
    import json

    m = types.ModuleType("json")
    m.JSONDecodeError = json.JSONDecodeError

    def clean(x):
        if isinstance(x, SYM):
            return x
        if isinstance(x, dict):
            return {k: clean(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [clean(v) for v in x]
        if isinstance(x, np.ndarray):
            raise TypeError("Object of type ndarray is not JSON serializable")
        if isinstance(x, np.generic) and not isinstance(x, (float,)):
            raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)
        if isinstance(x, (str, int, float, bool, type(None))):
            return x
        raise TypeError("Object of type %s is not JSON serializable" % type(x).__name__)

    def dumps(x, *a, **k):
        d = clean(x)
        r = JsonDoc("<json>")
        r.doc = d
        return r

    def loads(s, *a, **k):
        if isinstance(s, JsonDoc):
            return s.doc
        return json.loads(s, *a, **k)

    m.dumps, m.loads = dumps, loads
    m.dump = lambda x, f, *a, **k: f.write(dumps(x))
    return m


def make_modules():
    ws = Recorder("websocket", ("WebSocket", "WebSocketApp"))
    return {"math": make_math(), "datetime": make_datetime(), "random": make_random(), "logging": make_logging(), "json": make_json(),
            "requests": Recorder("requests"), "websocket": ws, "websocket_server": Recorder("websocket_server", ("WebsocketServer",)),
            "webbrowser": Recorder("webbrowser"), "socket": Recorder("socket"), "secrets": Recorder("secrets"), "uuid": Recorder("uuid"),
            "multiprocessing": Recorder("multiprocessing", ("Process",)), "http.server": Recorder("http.server", ("HTTPServer", "SimpleHTTPRequestHandler")), "http": Recorder("http")}
