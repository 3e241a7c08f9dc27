"""The numpy operations the code uses, as contracts over symbolic values."""
import types
from fractions import Fraction as F

import z3

from . import core, rt, vec
from .axis import Axis, PosAxis, TS, mknum
from .carr import CArr, full, mk
from .core import AND, ENG, NAN, NOT, OR, SBool, SF, Unsupported, asbool, choose, isq, mkbool, num
from .vec import DIndex, Frame, NDArr, Series, Shape, Vec, lift, trust


class Shim(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s.%s is not modelled' % (self.__name__, k))


class Stack:
    """np.array([v1, v2, ...]) of vectors"""

    def __init__(self, vs):
        self.vs = vs

    def __iter__(self):
        return iter(self.vs)

    def __getitem__(self, i):
        return self.vs[i]

    def __len__(self):
        return len(self.vs)

    def _len(self):
        return len(self.vs)


def ew(name, f):
    def g(x, *a, **kw):
        trust('numpy.' + name)
        if a or kw:
            raise Unsupported('np.%s with extra arguments' % name)
        if isinstance(x, Vec):
            return lift(f, x)
        if hasattr(x, '_ew'):
            return x._ew(f)
        if isinstance(x, CArr):
            return x.map(f)
        if isinstance(x, (list, tuple)):
            return mk(x).map(f)
        n = num(x)
        if n is None:
            raise Unsupported('np.%s of %s' % (name, type(x).__name__))
        return f(n)
    return g


def binary(name, f):
    def g(a, b):
        trust('numpy.' + name)
        if isinstance(a, Vec) or isinstance(b, Vec):
            return lift(f, a, b)
        if isinstance(a, CArr):
            return a._bin(f, b)
        if isinstance(b, CArr):
            return b._bin(f, a, True)
        return f(num(a), num(b))
    return g


def where(c, *ab):
    trust('numpy.where')
    if len(ab) != 2:
        raise Unsupported('np.where with one argument')
    a, b = ab
    if not isinstance(c, Vec):
        if isinstance(c, (bool, SBool)):
            return choose(asbool(c), a, b)
        raise Unsupported('np.where')
    r = lift(lambda x, y, z: choose(asbool(x), num(y), num(z)), c, a, b)
    return NDArr(r.axis, r.snapshot())


def clip(x, lo=None, hi=None, **kw):
    lo, hi = kw.get('a_min', lo), kw.get('a_max', hi)
    if isinstance(x, (Vec, CArr)):
        return x.clip(lo, hi)
    return core.clip(x, lo, hi)


def array(x, dtype=None, copy=True):
    if isinstance(x, Vec):
        return NDArr(x.axis, x.snapshot())
    if isinstance(x, DIndex):
        return x.values
    if isinstance(x, rt.LazyVec):
        return NDArr(x.axis, x.cell)
    if isinstance(x, CArr):
        return x.copy()
    if isinstance(x, Stack):
        return Stack([array(v) for v in x.vs])
    if isinstance(x, (list, tuple)) and any(isinstance(v, Vec) for v in x):
        if not all(isinstance(v, Vec) for v in x):
            raise Unsupported('array of mixed vectors')
        return Stack([NDArr(v.axis, v.snapshot()) for v in x])
    if hasattr(x, 'vector'):
        return x.vector()
    if isinstance(x, (list, tuple, range)):
        return mk(x)
    n = num(x)
    if n is not None:
        return n
    raise Unsupported('np.array(%s)' % type(x).__name__)


def shape_of(s):
    """('vec', axis) or ('tab', tuple)"""
    if isinstance(s, Shape):
        return 'vec', s.axis
    if isinstance(s, tuple):
        ns = [num(x) for x in s]
        if all(n.const() for n in ns):
            return 'tab', tuple(int(n.v) for n in ns)
        if len(ns) == 1:
            return 'vec', PosAxis(ns[0].v)
        raise Unsupported('array of symbolic shape')
    n = num(s)
    if n.const():
        return 'tab', (int(n.v),)
    return 'vec', PosAxis(n.v)


def filled(v):
    def f(shape, dtype=None):
        kind, s = shape_of(shape)
        if kind == 'tab':
            return full(s, v)
        return NDArr(s, lambda *l: v)
    return f


def full_(shape, v, dtype=None):
    return filled(v)(shape)


def like(v):
    def f(x, dtype=None):
        if isinstance(x, CArr):
            return full(x.a.shape, v)
        return NDArr(x.axis, lambda *l: v)
    return f


def arange(*a, **kw):
    r = rt.range_(*a)
    if isinstance(r, range):
        return mk(list(r))
    if isq(r.start) and r.start == 0 and r.step == 1:
        return NDArr(PosAxis(r.stop), lambda q: mknum(q))
    raise Unsupported('np.arange')


def isnan(x):
    if isinstance(x, Vec):
        r = lift(lambda a: mkbool(num(a).nan), x)
        return r
    if isinstance(x, CArr):
        return x.map(lambda a: mkbool(num(a).nan))
    return mkbool(num(x).nan)


def isfinite(x):
    f = lambda a: mkbool(num(a).fin)
    return lift(f, x) if isinstance(x, Vec) else (x.map(f) if isinstance(x, CArr) else f(x))


def isscalar(x):
    return isinstance(x, (int, float, bool, str, SF, SBool, F))


def floor1(x):
    x = num(x)
    if isq(x.v):
        return SF(x.v.__floor__(), x.nan, x.pinf, x.ninf)
    if x.v.is_int():
        return x
    return SF(z3.ToInt(x.v), x.nan, x.pinf, x.ninf)


def ceil1(x):
    return -floor1(-num(x))


def sqrt1(x):
    x = num(x)
    r = ENG.pow(x, SF(F(1, 2)))
    ENG.heavyfact(z3.Implies(core.zreal(x.v) >= 0, z3.And(r.v * r.v == core.zreal(x.v), r.v >= 0)))
    return r


def min2(a, b):
    a, b = num(a), num(b)
    r = choose(asbool(b < a), b, a)
    return SF(r.v, OR(a.nan, b.nan), AND(r.pinf, NOT(OR(a.nan, b.nan))), AND(r.ninf, NOT(OR(a.nan, b.nan))))


def max2(a, b):
    return -min2(-num(a), -num(b))


def mod(a, b):
    if isinstance(a, (Vec, CArr)):
        return a % b
    return num(a) % num(b)


WINDOW = 5


def cumsum(x, axis=None):
    trust('numpy.cumsum')
    if isinstance(x, CArr):
        return x.cumsum(axis)
    if not (isinstance(x, Vec) and isinstance(x.axis, PosAxis)):
        raise Unsupported('cumsum')
    rd = x.snapshot()
    n = x.axis.n
    f = ENG.func('cumsum', 'I', 'R')
    fn = ENG.func('cumsum_nan', 'I', 'B')
    done = {}

    def step(q):
        q = vec.norm(core.zr(q))
        k = q.get_id() if z3.is_expr(q) else q
        if k in done:
            return
        done[k] = q
        v = num(rd(q))
        if v.pinf is not False or v.ninf is not False:
            raise Unsupported('cumsum of infinite values')
        zq, zp = core.zr(q), core.zr(vec.norm(core.RSUB(q, 1)))
        inside = AND(core.RLE(0, q), core.RLT(q, n))
        ENG.fact(core.IMP(AND(inside, core.RLE(1, q)), core.REQ(f(zq), core.RADD(f(zp), core.zreal(v.v)))))
        ENG.fact(core.IMP(AND(inside, core.REQ(q, 0)), core.REQ(f(zq), core.zreal(v.v))))
        nanv = core.zb(v.nan)
        ENG.fact(core.IMP(AND(inside, core.RLE(1, q)), fn(zq) == z3.Or(fn(zp), nanv)))
        ENG.fact(core.IMP(AND(inside, core.REQ(q, 0)), fn(zq) == nanv))

    def cell(q):
        for j in range(WINDOW):
            step(core.RSUB(q, j))
        # NaN-free input (checked for an arbitrary position) gives a NaN-free sum
        i = z3.Int(ENG.name('csq'))
        if 'clean' not in done:
            done['clean'] = ENG.known(core.IMP(AND(core.RLE(0, i), core.RLT(i, n)), NOT(num(rd(i)).nan)))
        return SF(f(core.zr(vec.norm(core.zr(q)))), False if done['clean'] else fn(core.zr(q)))
    return NDArr(x.axis, cell)


def percentile(x, q):
    trust('numpy.percentile (an arbitrary real number for non-empty input)')
    ENG.assumed.add('np.percentile of the wet values returns a real number (its value is left arbitrary)')
    return SF(ENG.fresh('percentile'))


def rand01():
    trust('numpy.random draws: arbitrary values in [0, 1)')
    ENG.random_used += 1
    r = ENG.fresh('rnd')
    ENG.fact(r > 0 if ENG.rand_open else r >= 0)
    ENG.fact(r < 1)
    return SF(r)


def rand(n):
    trust('numpy.random draws: arbitrary values in [0, 1)')
    ENG.random_used += 1
    n = num(n).v
    f = ENG.func('rnd', 'I', 'R')

    def cell(q):
        t = f(core.zr(q))
        ENG.fact(t > 0 if ENG.rand_open else t >= 0)
        ENG.fact(t < 1)
        return SF(t)
    return NDArr(PosAxis(n), cell)


def npall(x, axis=None):
    return x.all() if isinstance(x, (Vec, CArr)) else rt.all_(x)


def npany(x, axis=None):
    return x.any() if isinstance(x, (Vec, CArr)) else rt.any_(x)


def array_equal(a, b):
    if isinstance(a, CArr) and isinstance(b, CArr):
        if a.a.shape != b.a.shape:
            return False
        return mkbool(AND(*[asbool(num(x) == num(y)) for x, y in zip(a.a.flat, b.a.flat)]))
    raise Unsupported('array_equal')


def repeat(x, k):
    if isinstance(x, Vec):
        return vec.np_repeat(x, k)
    raise Unsupported('np.repeat')


class errstate:
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class NdMeta(type):
    def __instancecheck__(cls, x):
        return (isinstance(x, NDArr) and not isinstance(x, Series)) or isinstance(x, (CArr, Stack))


class ndarray(metaclass=NdMeta):
    pass


def npabs(x):
    return abs(x) if not isinstance(x, CArr) else x.map(lambda a: abs(num(a)))


def npmean(x, axis=None):
    return x.mean() if axis is None else x.mean(axis=axis)


def npsum(x, axis=None):
    return x.sum() if axis is None else x.sum(axis=axis)


def deg2rad1(x):
    return num(x) * SF(None, pim=F(1, 180))


def rad2deg1(x):
    return num(x) / SF(None, pim=F(1, 180))


def concatenate(xs):
    raise Unsupported('np.concatenate')


def modules():
    np = Shim('numpy')
    np.pi = SF(None, pim=1)
    np.nan = np.NaN = NAN
    np.inf = SF(0, pinf=True)
    np.cos = ew('cos', lambda x: ENG.cos(x))
    np.sin = ew('sin', lambda x: ENG.sin(x))
    np.tan = ew('tan', lambda x: ENG.tan(x))
    np.exp = ew('exp', lambda x: ENG.exp(x))
    np.log = ew('log', lambda x: ENG.log(x))
    np.arccos = np.acos = ew('arccos', lambda x: ENG.acos(x))
    np.arcsin = np.asin = ew('arcsin', lambda x: ENG.acos(x, True))
    np.sqrt = ew('sqrt', sqrt1)
    np.deg2rad = np.radians = ew('deg2rad', deg2rad1)
    np.rad2deg = np.degrees = ew('rad2deg', rad2deg1)
    np.floor = ew('floor', floor1)
    np.ceil = ew('ceil', ceil1)
    np.round = np.rint = np.around = ew('round', lambda x: ENG.round(x))
    np.abs = np.absolute = np.fabs = npabs
    np.square = ew('square', lambda x: num(x) * num(x))
    np.negative = ew('negative', lambda x: -num(x))
    np.where, np.clip, np.array, np.asarray = where, clip, array, array
    np.minimum, np.maximum = binary('minimum', min2), binary('maximum', max2)
    np.fmin = binary('fmin', lambda a, b: choose(OR(num(b).nan, AND(NOT(num(a).nan), asbool(num(a) <= num(b)))), num(a), num(b)))
    np.multiply = lambda a, b: a * b
    np.divide = np.true_divide = lambda a, b: rt.div(a, b)
    np.add = lambda a, b: a + b
    np.subtract = lambda a, b: a - b
    np.power = lambda a, b: a ** b
    np.logical_and = lambda a, b: a & b
    np.logical_or = lambda a, b: a | b
    np.logical_not = lambda a: ~a
    np.zeros, np.ones, np.full, np.empty = filled(SF(0)), filled(SF(1)), full_, filled(SF(0))
    np.zeros_like, np.ones_like = like(SF(0)), like(SF(1))
    np.full_like = lambda x, v, dtype=None: like(v)(x)
    np.arange, np.isnan, np.isfinite, np.isscalar = arange, isnan, isfinite, isscalar
    np.mod = np.remainder = mod
    np.cumsum, np.percentile, np.repeat = cumsum, percentile, repeat
    np.all, np.any, np.array_equal = npall, npany, array_equal
    np.mean, np.sum = npmean, npsum
    np.errstate, np.ndarray, np.concatenate = errstate, ndarray, concatenate
    np.float64 = np.float32 = rt.tofloat
    np.int64 = np.int32 = rt.toint
    np.bool_ = rt.tobool
    np.newaxis = None
    rnd = Shim('numpy.random')
    rnd.random = rnd.random_sample = lambda size=None: rand01() if size is None else rand(size)
    rnd.rand = lambda n=None: rand01() if n is None else rand(n)
    rnd.uniform = lambda lo=0, hi=1, size=None: (rand01() if size is None else rand(size)) * (hi - lo) + lo
    rnd.seed = lambda *a: None
    np.random = rnd
    return {'numpy': np, 'numpy.random': rnd}
