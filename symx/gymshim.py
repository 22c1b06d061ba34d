"""gymnasium 1.0 for the modules under test: Env seeding/reset semantics and Box spaces."""
import types, math
import numpy as np
from . import core, npshim
from .core import SymNum, b_and, Unsupported
from .npshim import SymArray, vd_of, VDType, _arr


class Space(object):
    def __init__(self, shape=None, dtype=None, seed=None):
        self._shape = shape
        self.dtype = dtype
        self._np_random = None

    @property
    def shape(self):
        return self._shape

    def __contains__(self, x):
        return self.contains(x)


class Box(Space):
    def __init__(self, low, high, shape=None, dtype=np.float32, seed=None):
        self._vd = vd_of(dtype)
        if self._vd not in ("float", "float32", "int", "bool"):
            raise ValueError("Invalid dtype")

        def chk(b, n):
            if isinstance(b, (np.ndarray, list, tuple)):
                if isinstance(b, (list, tuple)):
                    raise ValueError("Box %s must be a np.ndarray, integer, or float" % n)
                a = SymArray.make(b)
                if a.vd not in ("float", "int", "float32", "bool"):
                    raise ValueError("Box %s must be a floating, integer, or boolean dtype, actual dtype=%s" % (n, a.vd))
                for x in a.reshape(-1):
                    if npshim.s_isnan(x):
                        raise ValueError("No %s value can be equal to np.nan" % n)
                return a
            if b is None:
                raise ValueError("Box %s must not be None" % n)
            if npshim.s_isnan(b):
                raise ValueError("nan")
            return b

        low, high = chk(low, "low"), chk(high, "high")
        if shape is not None:
            shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        elif isinstance(low, np.ndarray):
            shape = low.shape
        elif isinstance(high, np.ndarray):
            shape = high.shape
        else:
            shape = (1,)
        if isinstance(low, np.ndarray) and low.shape != shape or isinstance(high, np.ndarray) and high.shape != shape:
            raise ValueError("Box low.shape or high.shape doesn't match provided shape")
        low = npshim.f_full(shape, low) if not isinstance(low, np.ndarray) else low
        high = npshim.f_full(shape, high) if not isinstance(high, np.ndarray) else high
        bad = [x > y for x, y in zip(low.reshape(-1), high.reshape(-1))]
        if bad and bool(core.b_or(*bad)):
            raise ValueError("Box all low values must be less than or equal to high")
        super().__init__(shape, VDType(self._vd), seed)
        self.low = SymArray.make(low, self._vd)
        self.high = SymArray.make(high, self._vd)

    def contains(self, x):
        if not isinstance(x, np.ndarray):
            if not isinstance(x, (list, tuple)):
                return False
            x = SymArray.make(x)
        x = _arr(x)
        vd = x.vd or "float"
        if not npshim.f_can_cast(x, self.dtype):
            return False
        if x.shape != self.shape:
            return False
        conds = []
        for v, l, h in zip(x.reshape(-1), self.low.reshape(-1), self.high.reshape(-1)):
            conds.append(v >= l)
            conds.append(v <= h)
        return b_and(*conds) if conds else True

    def sample(self, *a, **k):
        c = core.ctx()
        out = []
        for l, h in zip(self.low.reshape(-1), self.high.reshape(-1)):
            v = c.fresh("sample")
            c.assume(v >= l)
            c.assume(v <= h)
            out.append(v)
        return SymArray.make(out, "float").reshape(self.shape)

    def is_bounded(self, *a, **k):
        return all(npshim.s_isfinite(x) for x in list(self.low.reshape(-1)) + list(self.high.reshape(-1)))

    @property
    def bounded_below(self):
        return npshim.emap(lambda x: npshim.s_isfinite(x), self.low, vd="bool")

    @property
    def bounded_above(self):
        return npshim.emap(lambda x: npshim.s_isfinite(x), self.high, vd="bool")

    def __eq__(self, o):
        return isinstance(o, Box) and o.shape == self.shape and bool(npshim.f_all(self.low == o.low)) and bool(npshim.f_all(self.high == o.high))

    def __repr__(self):
        return "Box(%s)" % (self.shape,)


class Env(object):
    metadata = {"render_modes": []}
    render_mode = None
    spec = None
    _np_random = None
    _np_random_seed = None

    def step(self, action):
        raise NotImplementedError

    def reset(self, *, seed=None, options=None):
        if seed is not None:
            from . import api

            if not isinstance(seed, (int, np.integer, SymNum)) or (not isinstance(seed, SymNum) and seed < 0):
                raise Exception("Seed must be a non-negative python integer")
            self._np_random = api.SymRNG("seed=%s" % core_key(seed))
            self._np_random_seed = seed

    def render(self):
        raise NotImplementedError

    def close(self):
        pass

    @property
    def unwrapped(self):
        return self

    @property
    def np_random(self):
        if self._np_random is None:
            from . import api

            self._np_random = api.SymRNG("env-unseeded", hidden=True)
            self._np_random_seed = -1
        return self._np_random

    @np_random.setter
    def np_random(self, v):
        self._np_random = v
        self._np_random_seed = -1

    @property
    def np_random_seed(self):
        return self._np_random_seed

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __str__(self):
        return "<%s>" % type(self).__name__


def core_key(seed):
    return repr(core.p_key(seed.p)) if isinstance(seed, SymNum) else str(seed)


def make_modules():
    g = types.ModuleType("gymnasium")
    sp = types.ModuleType("gymnasium.spaces")
    ut = types.ModuleType("gymnasium.utils")
    se = types.ModuleType("gymnasium.utils.seeding")
    en = types.ModuleType("gymnasium.envs")
    re = types.ModuleType("gymnasium.envs.registration")
    co = types.ModuleType("gymnasium.core")
    lg = types.ModuleType("gymnasium.logger")
    sp.Box, sp.Space = Box, Space

    def np_random(seed=None):
        from . import api

        return api.SymRNG("seed=%s" % core_key(seed) if seed is not None else "unseeded", hidden=seed is None), seed

    se.np_random = np_random
    ut.seeding = se
    re.register = lambda *a, **k: None
    re.registry = {}
    en.registration = re
    en.register = re.register
    g.Env, g.spaces, g.utils, g.envs, g.Space, g.register, g.core, g.logger = Env, sp, ut, en, Space, re.register, co, lg
    co.Env = Env
    for n in ("warn", "info", "error", "debug", "deprecation"):
        setattr(lg, n, lambda *a, **k: None)
    g.error = types.ModuleType("gymnasium.error")
    return {"gymnasium": g, "gymnasium.spaces": sp, "gymnasium.utils": ut, "gymnasium.utils.seeding": se, "gymnasium.envs": en,
            "gymnasium.envs.registration": re, "gymnasium.core": co, "gymnasium.logger": lg, "gymnasium.error": g.error}
