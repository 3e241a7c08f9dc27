"""Symbolic stand-ins for pandas / numpy vectors.

A vector is an axis plus a *cell function*: label -> value.  Operations build
new cell functions; nothing is enumerated except the slots of one day.  The
semantics of each operation is the assumed contract of the pandas / numpy
operation of that name (see trusted_base in the evidence).
"""
import builtins
import operator
from fractions import Fraction as F

import z3

from . import core
from .axis import (Axis, DateOnly, DayStr, DaySet, Delta, PosAxis, PosSel, PredDays, RangeDays, TS, canonical, dom, doy,
                   mknum, month, same_axis, same_days, subset_axis, year)
from .core import (AND, BITE, ENG, IFF, IMP, NAN, NOT, OR, SBool, SF, SStr, Unsupported, asbool, choose, isq, mkbool,
                   num, same_value, zr)


def trust(name):
    ENG.trusted.add(name)


class Vec:
    kind = 'vec'
    frozen = None
    __array_ufunc__ = None

    def __init__(self, axis, cell, name=None):
        self.axis = axis
        self._cell = cell
        self.name = name
        self._memo = {}
        self.born = len(ENG.loop_stack)
        self.serial = ENG.serial = ENG.serial + 1

    def at(self, *lab):
        key = tuple(x.get_id() if z3.is_expr(x) else x for x in lab)
        m = self._memo.get(key)
        if m is None or m[0] is not self._cell:
            m = (self._cell, self._cell(*lab), lab)
            self._memo[key] = m
        return m[1]

    def _set_cell(self, cell):
        if self.frozen:
            ENG.frame_log.append((self.frozen, 'written in place'))
        ENG_note(self)
        self._cell = cell

    def snapshot(self):
        """immutable reader of the current contents"""
        cell = self._cell
        memo = {}

        def rd(*lab):
            key = tuple(x.get_id() if z3.is_expr(x) else x for x in lab)
            if key not in memo:
                memo[key] = (cell(*lab), lab)
            return memo[key][0]
        return rd

    # subclasses: make a new object of the same kind
    def _new(self, axis, cell):
        return type(self)(axis, cell)

    def _len(self):
        return mknum(self.axis.length())

    # ---- elementwise
    def __add__(self, o):
        return lift(operator.add, self, o)

    def __radd__(self, o):
        return lift(operator.add, o, self)

    def __sub__(self, o):
        return lift(operator.sub, self, o)

    def __rsub__(self, o):
        return lift(operator.sub, o, self)

    def __mul__(self, o):
        return lift(operator.mul, self, o)

    def __rmul__(self, o):
        return lift(operator.mul, o, self)

    def __truediv__(self, o):
        return lift(sdiv, self, o)

    def __rtruediv__(self, o):
        return lift(sdiv, o, self)

    def __pow__(self, o):
        return lift(operator.pow, self, o)

    def __mod__(self, o):
        return lift(operator.mod, self, o)

    def __floordiv__(self, o):
        return lift(operator.floordiv, self, o)

    def __neg__(self):
        return lift(lambda a: -num(a), self)

    def __pos__(self):
        return self

    def __abs__(self):
        return lift(lambda a: abs(num(a)), self)

    def __lt__(self, o):
        return lift(operator.lt, self, o, cmp=True)

    def __le__(self, o):
        return lift(operator.le, self, o, cmp=True)

    def __gt__(self, o):
        return lift(operator.gt, self, o, cmp=True)

    def __ge__(self, o):
        return lift(operator.ge, self, o, cmp=True)

    def __eq__(self, o):
        return lift(operator.eq, self, o, cmp=True)

    def __ne__(self, o):
        return lift(operator.ne, self, o, cmp=True)

    def __and__(self, o):
        return lift(band, self, o)

    __rand__ = __and__

    def __or__(self, o):
        return lift(bor, self, o)

    __ror__ = __or__

    def __xor__(self, o):
        return lift(lambda a, b: mkbool(NOT(IFF(asbool(a), asbool(b)))), self, o)

    def __invert__(self):
        return lift(bnot, self)

    def _inplace(self, op, o):
        r = lift(op, self, o)
        if not same_axis(r.axis, self.axis) and not (self.kind == 'series' and subset_axis(self.axis, r.axis)):
            # (a Series is reindexed like the left operand)
            raise Unsupported('in-place operation changes the axis')
        self._set_cell(r.snapshot())
        return self

    def __iadd__(self, o):
        return self._inplace(operator.add, o)

    def __isub__(self, o):
        return self._inplace(operator.sub, o)

    def __imul__(self, o):
        return self._inplace(operator.mul, o)

    def __itruediv__(self, o):
        return self._inplace(sdiv, o)

    def __bool__(self):
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    __hash__ = None

    # ---- shared API
    def isnull(self):
        return lift(lambda a: mkbool(num(a).nan), self)

    isna = isnull

    def notnull(self):
        return lift(lambda a: mkbool(NOT(num(a).nan)), self)

    notna = notnull

    def fillna(self, v):
        rd = self.snapshot()
        if isinstance(v, Vec):
            vc = aligned_reader(v, self.axis)
            return self._new(self.axis, lambda *l: choose(num(rd(*l)).nan, vc(*l), rd(*l)))
        return self._new(self.axis, lambda *l: choose(num(rd(*l)).nan, v, rd(*l)))

    def clip(self, lower=None, upper=None, **kw):
        lo = kw.get('min', kw.get('a_min', lower))
        hi = kw.get('max', kw.get('a_max', upper))
        if isinstance(lo, Vec) or isinstance(hi, Vec):
            return lift(lambda x, a, b: core.clip(x, a, b), self, lo if lo is not None else float('-inf'), hi if hi is not None else float('inf'))
        return lift(lambda a: core.clip(a, lo, hi), self)

    def round(self, n=0):
        return lift(lambda a: ENG.round(num(a), n), self)

    def abs(self):
        return abs(self)

    def astype(self, t):
        if t is float or getattr(t, '_is_float', False) or t in ('float', 'float64'):
            return lift(lambda a: num(a), self)
        if t is int or getattr(t, '_is_int', False) or t in ('int', 'int64'):
            rd = self.snapshot()
            if isinstance(self.axis, Axis):
                d = z3.Int(ENG.name('int'))
                if all(ENG.known(IMP(self.axis.has(d, s), NOT(num(rd(d, s)).nan))) for s in self.axis.slots()):
                    return lift(lambda x: truncate(x, False), self)
            return lift(truncate, self)
        if t is bool or getattr(t, '_is_bool', False) or t == 'bool':
            return lift(lambda a: a if isinstance(a, (bool, SBool)) else (num(a) != 0), self)
        raise Unsupported('astype(%r)' % (t,))

    def any(self):
        return exists(self)

    def all(self):
        r = exists(~self)
        return (not r) if isinstance(r, bool) else ~r

    def copy(self, deep=True):
        return self._new(self.axis, self.snapshot())

    def isin(self, values):
        return isin(self, values)

    @property
    def shape(self):
        return Shape(self.axis)

    @property
    def size(self):
        return self._len()

    def __iter__(self):
        raise Unsupported('iteration over a symbolic vector')


def truncate(a, check=True):
    a = num(a)
    v = a.v
    if isq(v):
        t = int(v)
    elif v.is_int():
        t = v
    else:
        k = z3.ToInt(v)
        t = z3.If(z3.And(v < 0, z3.ToReal(k) != v), k + 1, k)
    if check and a.nan is not False:
        if not ENG.known(NOT(a.nan)):
            raise Unsupported('conversion of a possible NaN to int')
    return SF(t)


def ENG_note(obj):
    ENG.mutlog.append((obj, obj._cell if isinstance(obj, Vec) else obj.a.copy()))
    for l in ENG.loop_stack:
        l.note_write(obj)


def sdiv(a, b):
    return num(a) / num(b)


def band(a, b):
    return mkbool(AND(asbool(a), asbool(b)))


def bor(a, b):
    return mkbool(OR(asbool(a), asbool(b)))


def bnot(a):
    if not isinstance(a, (bool, SBool)):
        raise Unsupported('~ on numbers')
    return mkbool(NOT(asbool(a)))


class Shape:
    def __init__(self, axis):
        self.axis = axis

    def __eq__(self, o):
        if isinstance(o, Shape):
            if same_axis(self.axis, o.axis):
                return True
            return mkbool(core.REQ(self.axis.length(), o.axis.length()))
        if isinstance(o, tuple) and len(o) == 1:
            return mkbool(core.REQ(self.axis.length(), num(o[0]).v))
        return False

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __getitem__(self, i):
        if i == 0:
            return mknum(self.axis.length())
        raise IndexError

    __hash__ = None


def exists(v):
    """some cell of a boolean vector is true (fresh boolean with a witness)"""
    if getattr(v.axis, 'single', None) is not None:
        d = v.axis.single
        return mkbool(OR(*[AND(v.axis.has(d, s), asbool(v.at(d, s))) for s in v.axis.slots()]))
    if isinstance(v.axis, Axis):
        ex = ENG.freshbool('exists')
        w = ENG.fresh('wit', 'I')
        ENG.fact(IMP(ex, OR(*[AND(v.axis.has(w, s), asbool(v.at(w, s))) for s in v.axis.slots()])))
        ENG.templates.append(('exists', ex, v.axis, v.snapshot()))
        for t in [t for t in ENG.templates if t[0] == 'watch']:
            instantiate_exists(t[1], last=True)
        return SBool(ex)
    raise Unsupported('any() over positions')


def watch(d):
    """day d is of interest in every existential from now on"""
    ENG.templates.append(('watch', d))


def instantiate_exists(d, last=False):
    """no-witness facts: at day d nothing holds unless the existential is true"""
    for t in ENG.templates[-1:] if last else ENG.templates:
        if t[0] == 'exists':
            _, ex, ax, rd = t
            for s in ax.slots():
                ENG.fact(IMP(AND(ax.has(d, s), asbool(rd(d, s))), ex))


# ------------------------------------------------------------ alignment

def relabel(v, axis):
    """positional reader of v at labels of axis (lengths must provably agree)"""
    rd = v.snapshot()
    a = v.axis
    if same_axis(a, axis):
        return rd
    if isinstance(a, Axis) and isinstance(axis, Axis) and a.whole and axis.whole and a.K == axis.K:
        da, db = canonical(a.days), canonical(axis.days)
        if ENG.known(core.REQ(da.n, db.n)):
            return lambda d, s: rd(da.at(db.pos(d)), s)
    one = getattr(axis, 'oneslot', None)
    if one is not None and isinstance(a, Axis) and a.whole and a.K == 1:
        # one label per day at a fixed hour
        da, db = canonical(a.days), one[1]
        if same_days(da, db):
            return lambda d, s: rd(d, 0)
        if ENG.known(core.REQ(da.n, db.n)):
            return lambda d, s: rd(da.at(db.pos(d)), 0)
        if ENG.decide(core.REQ(da.n, db.n)) is False:
            raise ValueError('Length of values does not match length of index')
        return relabel(v, axis)
    if isinstance(a, PosAxis) and isinstance(axis, Axis) and axis.whole:
        days = canonical(axis.days)
        if ENG.known(core.REQ(a.n, core.RMUL(axis.K, days.n))):
            K = axis.K
            return lambda d, s: rd(core.RADD(core.RMUL(K, days.pos(d)), s))
        if ENG.decide(core.REQ(a.n, core.RMUL(axis.K, days.n))) is False:
            raise ValueError('Length of values does not match length of index')
        return relabel(v, axis)
    raise Unsupported('positional use of a vector of a different axis')


def label_reader(v, axis, missing=NAN):
    """reader of v at labels of axis by label; missing labels give `missing`"""
    rd = v.snapshot()
    a = v.axis
    if same_axis(a, axis):
        return rd
    if not (isinstance(a, Axis) and isinstance(axis, Axis)):
        raise Unsupported('label alignment of positional vectors')
    if a.K == axis.K:
        return lambda d, s: choose(a.has(d, s), rd(d, s), missing)

    def cell(d, s):
        t = s * F(a.K, axis.K)
        if t.denominator != 1:
            return missing
        return choose(a.has(d, int(t)), rd(d, int(t)), missing)
    return cell


def aligned_reader(v, axis):
    """how v is read when combined with something on `axis`"""
    return label_reader(v, axis) if v.kind == 'series' else relabel(v, axis)


def lift(fn, *args, cmp=False):
    vecs = [a for a in args if isinstance(a, Vec)]
    for a in args:
        if isinstance(a, (Frame,)):
            return NotImplemented
        if hasattr(a, '_lift_other'):
            return NotImplemented
        if not isinstance(a, Vec) and not isinstance(a, (bool, SBool, DateOnly, TS)) and num(a) is None:
            return NotImplemented
    series = [v for v in vecs if v.kind == 'series']
    res = Series if series else (NDArr)
    axis = (series or vecs)[0].axis
    if len(series) > 1 and not all(same_axis(axis, v.axis) for v in series[1:]):
        if cmp:
            raise ValueError('Can only compare identically-labeled Series objects')
        axis = union_axis([v.axis for v in series])
    rds = [aligned_reader(a, axis) if isinstance(a, Vec) else None for a in args]

    def cell(*l):
        vals = [r(*l) if r else a for r, a in zip(rds, args)]
        return fn(*vals)
    return res(axis, cell)


def union_axis(axes):
    K = axes[0].K
    if any(not isinstance(a, Axis) or a.K != K for a in axes):
        raise Unsupported('union of axes of different resolution')
    if all(a.whole for a in axes):
        for a in axes:
            if all(a is b or subset_axis(b, a) for b in axes):
                return a
        return Axis(K, PredDays(lambda d: OR(*[a.days.has(d) for a in axes]), 'union'))
    return Axis(K, None, lambda d, s: OR(*[a.has(d, s) for a in axes]))


def filter_axis(axis, mask):
    """labels of axis where mask(*label) holds"""
    if isinstance(axis, (PosAxis, PosSel)):
        return PosSel(axis, lambda q: asbool(mask(q)))
    base = axis
    if axis.whole:
        d = z3.Int('?probe')
        if axis.K == 1:
            return Axis(1, PredDays(lambda x: AND(base.has(x, 0), asbool(mask(x, 0)))))
        ms = [asbool(mask(d, s)) for s in axis.slots()]
        m0 = ms[0]
        if all((m is m0) or (z3.is_expr(m) and z3.is_expr(m0) and m.eq(m0)) for m in ms):
            return Axis(axis.K, PredDays(lambda x: AND(base.has(x, 0), asbool(mask(x, 0)))))
    memo = {}

    def has(x, s):
        k = (x.get_id() if z3.is_expr(x) else x, s)
        if k not in memo:
            memo[k] = (AND(base.has(x, s), asbool(mask(x, s))), x)
        return memo[k][0]
    a = Axis(axis.K, None, has)
    a.single = getattr(axis, 'single', None)
    return a


def single_day(axis, d):
    """the labels of axis on day d"""
    a = Axis(axis.K, None, lambda x, s: AND(core.REQ(x, d), axis.has(x, s)))
    a.single = d
    return a


# ------------------------------------------------------------ indices

class DIndex:
    """DatetimeIndex"""
    frozen = None

    def __init__(self, axis, freq='?', order=None):
        self.axis = axis
        self._freq = freq
        self.name = None

    def __setattr__(self, k, v):
        if k == 'name' and self.frozen:
            ENG.frame_log.append((self.frozen, 'index name changed'))
        object.__setattr__(self, k, v)

    def _len(self):
        return mknum(self.axis.length())

    def _field(self, fn):
        return NDArr(self.axis, fn)

    def _sec(self, s):
        return F(86400, self.axis.K) * s

    @property
    def hour(self):
        return self._field(lambda d, s: int(self._sec(s) // 3600))

    @property
    def minute(self):
        return self._field(lambda d, s: int(self._sec(s) // 60 % 60))

    @property
    def second(self):
        return self._field(lambda d, s: int(self._sec(s) % 60 // 1))

    @property
    def day(self):
        return self._field(lambda d, s: SF(dom(d)))

    @property
    def month(self):
        return self._field(lambda d, s: SF(month(d)))

    @property
    def year(self):
        return self._field(lambda d, s: SF(year(d)))

    @property
    def dayofyear(self):
        return self._field(lambda d, s: SF(doy(d)))

    day_of_year = dayofyear

    @property
    def date(self):
        return self._field(lambda d, s: DateOnly(d))

    def normalize(self):
        return self._field(lambda d, s: DateOnly(d))

    def floor(self, f):
        if f in ('D', '1D', 'd'):
            return self.normalize()
        raise Unsupported('floor')

    @property
    def resolution(self):
        K = self.axis.K
        if K == 1:
            return 'day'
        if K == 24:
            return 'hour'
        return 'minute' if (86400 // K) % 60 == 0 else 'second'

    @property
    def freq(self):
        if self._freq == '?':
            raise Unsupported('frequency of a derived index')
        return self._freq

    @property
    def freqstr(self):
        return None if self.freq is None else {1: 'D', 24: 'h'}[self.axis.K]

    @property
    def inferred_freq(self):
        raise Unsupported('inferred_freq')

    @property
    def is_monotonic_increasing(self):
        return True

    @property
    def is_unique(self):
        return True

    def min(self):
        return self._end(0)

    def max(self):
        return self._end(-1)

    def _end(self, i):
        a = self.axis
        if a.whole:
            days = canonical(a.days)
            if i == 0:
                return TS(days.first, 0)
            return TS(days.last, F(86400, a.K) * (a.K - 1))
        e = getattr(a, 'ends', None)
        if e is None:
            raise Unsupported('end of an irregular axis')
        return e[i]

    def __getitem__(self, k):
        a = self.axis
        if isinstance(k, int) and k in (0, -1):
            return self._end(k)
        if isinstance(k, Vec):
            rd = relabel(k, a)
            return DIndex(filter_axis(a, rd))
        if isinstance(k, slice):
            if a.whole and a.K == 1 and k.step is None:
                return DIndex(slice_axis(a, k))
        raise Unsupported('index[%r]' % (k,))

    def isin(self, other):
        return isin(NDArr(self.axis, lambda d, s: TS(d, self._sec(s))), other)

    def equals(self, o):
        return isinstance(o, DIndex) and _decide_same_axis(self.axis, o.axis)

    def intersection(self, o):
        return DIndex(filter_axis(self.axis, lambda d, s: mkbool(o.axis.has(d, s))))

    def difference(self, o):
        return DIndex(filter_axis(self.axis, lambda d, s: mkbool(NOT(o.axis.has(d, s)))))

    def union(self, o):
        return DIndex(union_axis([self.axis, o.axis]))

    def copy(self):
        return DIndex(self.axis, self._freq)

    def sort_values(self):
        return self

    def to_pydatetime(self):
        raise Unsupported('to_pydatetime')

    def to_series(self):
        return Series(self.axis, lambda d, s: TS(d, self._sec(s)))

    @property
    def values(self):
        return NDArr(self.axis, lambda d, s: TS(d, self._sec(s)))

    def to_numpy(self):
        return self.values

    def __sub__(self, o):
        if isinstance(o, Delta):
            return self._shift(core.RNEG(o.d), core.RNEG(o.sec))
        raise Unsupported('index - x')

    def __add__(self, o):
        if isinstance(o, Delta):
            return self._shift(o.d, o.sec)
        raise Unsupported('index + x')

    def _shift(self, dd, sec):
        a = self.axis
        if sec == 0 and a.whole:
            return DIndex(Axis(a.K, PredDays(lambda x: a.days.has(core.RSUB(x, dd)), 'shift')))
        if a.K == 1 and a.whole and isq(dd) and dd == 0 and isq(sec) and sec % 3600 == 0 and 0 < sec < 86400:
            h, base = int(sec // 3600), canonical(a.days)
            ax = Axis(24, None, lambda d, s: base.has(d) if s == h else False)
            ax.oneslot = (h, base)
            return DIndex(ax)
        raise Unsupported('index shift')

    def __eq__(self, o):
        return NDArr(self.axis, lambda d, s: TS(d, self._sec(s)))._cmp_ts(o, operator.eq)

    def __lt__(self, o):
        return NDArr(self.axis, lambda d, s: TS(d, self._sec(s)))._cmp_ts(o, operator.lt)

    def __le__(self, o):
        return NDArr(self.axis, lambda d, s: TS(d, self._sec(s)))._cmp_ts(o, operator.le)

    def __gt__(self, o):
        return NDArr(self.axis, lambda d, s: TS(d, self._sec(s)))._cmp_ts(o, operator.gt)

    def __ge__(self, o):
        return NDArr(self.axis, lambda d, s: TS(d, self._sec(s)))._cmp_ts(o, operator.ge)

    __hash__ = None

    def __iter__(self):
        return IndexIter(self)


class IndexIter:
    """iteration over a symbolic index: only meaningful through rt.comp / rt.loop"""

    def __init__(self, index):
        self.index = index

    def __next__(self):
        raise Unsupported('iteration over a symbolic index')

    def __iter__(self):
        return self


def _decide_same_axis(a, b):
    if same_axis(a, b):
        return True
    raise Unsupported('equality of two axes undecided')


def slice_axis(a, k):
    """positional slice of a daily axis"""
    if not (a.whole and a.K == 1):
        raise Unsupported('positional slice')
    days = canonical(a.days)

    def bound(x, default):
        if x is None:
            return default
        x = num(x).v
        if isq(x) and x < 0:
            return core.RADD(days.n, x)
        return x
    lo, hi = bound(k.start, 0), bound(k.stop, days.n)
    if isinstance(days, RangeDays):
        return Axis(1, RangeDays(core.RADD(days.first, lo), core.RADD(days.first, core.RSUB(hi, 1))))
    if isinstance(days, DaySet):
        return Axis(1, PredDays(lambda d: AND(days.has(d), core.RLE(lo, days.pos(d)), core.RLT(days.pos(d), hi))))
    raise Unsupported('positional slice')


def isin(v, values):
    trust('isin')
    if isinstance(values, DIndex):
        ax = values.axis

        def f(*l):
            x = v.at(*l)
            if isinstance(x, DateOnly):
                return mkbool(ax.has(x.d, 0)) if ax.K == 1 else False
            sl = num(x.sec).v * F(ax.K, 86400)
            if sl.denominator != 1:
                return False
            return mkbool(ax.has(x.d, int(sl)))
        return v._new(v.axis, f)
    if isinstance(values, Vec):
        ax = values.axis
        d0 = z3.Int('?probe')
        # set of dates: {value(d',s')}: supported for date-valued vectors that are the identity on days
        rd = values.snapshot()

        def f(*l):
            x = v.at(*l)
            if isinstance(x, DateOnly):
                y = rd(zr(x.d), 0)
                if isinstance(y, DateOnly) and (y.d is x.d or core.REQ(y.d, x.d) is True) and ax.K == 1:
                    return mkbool(ax.has(x.d, 0))
            raise Unsupported('isin')
        return v._new(v.axis, f)
    if isinstance(values, (list, tuple, set, range)) or hasattr(values, '_items'):
        vals = list(values._items()) if hasattr(values, '_items') else list(values)

        def f(*l):
            x = v.at(*l)
            return mkbool(OR(*[asbool(x == y) for y in vals]))
        return v._new(v.axis, f)
    raise Unsupported('isin(%s)' % type(values).__name__)


# ------------------------------------------------------------ arrays

class NDArr(Vec):
    kind = 'nd'
    ndim = 1

    def _cmp_ts(self, o, op):
        if isinstance(o, TS):
            return NDArr(self.axis, lambda *l: op(self.at(*l), o))
        raise Unsupported('index comparison')

    @property
    def values(self):
        return self

    @property
    def T(self):
        return self

    def to_numpy(self):
        return self

    def tolist(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, Vec):
            rd, rk = self.snapshot(), relabel(k, self.axis)
            return NDArr(filter_axis(self.axis, rk), rd)
        if isinstance(k, slice):
            if k == slice(None):
                return self
            if isinstance(self.axis, Axis) and self.axis.K == 1:
                return NDArr(slice_axis(self.axis, k), self.snapshot())
            return pos_slice(self, k)
        i = num(k)
        if i is not None:
            return self._read(i)
        raise Unsupported('array[%s]' % type(k).__name__)

    def _pos(self, i):
        """label of position i (obligation: in range, else IndexError)"""
        v = i.v
        n = self.axis.length()
        if isq(v) and v < 0:
            v = core.RADD(n, v)
        ok = AND(core.RLE(0, v), core.RLT(v, n))
        if not ENG.known(ok):
            if not ENG.decide(ok):
                if ENG.known(core.RLE(0, v)) or isq(i.v):
                    raise IndexError('index out of bounds')
                # Python semantics of negative positions
                v = core.RADD(n, v)
                if not ENG.decide(core.RLE(0, v)):
                    raise IndexError('index out of bounds')
        if isinstance(self.axis, PosAxis):
            return (norm(v),)
        if self.axis.whole and self.axis.K == 1:
            return (canonical(self.axis.days).at(v), 0)
        raise Unsupported('position in a sub-daily axis')

    def _read(self, i):
        pos = self._pos(i)
        for l in ENG.loop_stack:
            l.array_read(self, num(i).v)
        return self.at(*pos)

    def __setitem__(self, k, val):
        old = self.snapshot()
        if isinstance(k, slice) and k == slice(None):
            self._set_all(val)
            return
        if isinstance(k, Vec):
            rk = relabel(k, self.axis)
            if isinstance(val, Vec):
                if same_axis(val.axis, self.axis) and False:
                    pass
                rv = relabel(val, filter_axis(self.axis, rk))
                self._set_cell(lambda *l: choose(asbool(rk(*l)), rv(*l), old(*l)))
            else:
                self._set_cell(lambda *l: choose(asbool(rk(*l)), val, old(*l)))
            return
        i = num(k)
        if i is not None and isinstance(self.axis, PosAxis):
            (q,) = self._pos(i)
            self._write(q, val)
            return
        raise Unsupported('array[%s] = ...' % type(k).__name__)

    def _write(self, q, val):
        old = self.snapshot()
        for l in ENG.loop_stack:
            l.array_write(self, q, val)
        self._set_cell(lambda x: choose(core.REQ(x, q), val, old(x)))

    def _set_all(self, val):
        if isinstance(val, Vec):
            rv = aligned_reader(val, self.axis) if self.kind == 'series' else relabel(val, self.axis)
            self._set_cell(rv)
        else:
            if num(val) is None:
                raise Unsupported('assignment of ' + type(val).__name__)
            self._set_cell(lambda *l: val)

    def sum(self):
        return Series(self.axis, self.snapshot()).sum(skipna=False)

    def mean(self):
        return Series(self.axis, self.snapshot()).mean(skipna=False)

    def repeat(self, k):
        return np_repeat(self, k)

    def flatten(self):
        return self.copy()

    ravel = flatten


def pos_slice(a, k):
    if not isinstance(a.axis, PosAxis) or k.step not in (None, 1):
        raise Unsupported('array slice')
    n = a.axis.n

    def bound(x, default):
        if x is None:
            return default
        x = num(x).v
        return core.RADD(n, x) if isq(x) and x < 0 else x
    lo, hi = bound(k.start, 0), bound(k.stop, n)
    if not (ENG.known(core.RLE(0, lo)) and ENG.known(core.RLE(lo, hi)) and ENG.known(core.RLE(hi, n))):
        raise Unsupported('array slice bounds')
    rd = a.snapshot()
    return NDArr(PosAxis(core.RSUB(hi, lo)), lambda q: rd(core.RADD(q, lo)))


def aff(t):
    """linear integer term -> ({atom: coef}, const)"""
    if isq(t):
        return {}, int(t), {}
    coefs, const, atoms = {}, 0, {}
    todo = [(t, 1)]
    while todo:
        x, k = todo.pop()
        if z3.is_int_value(x):
            const += k * x.as_long()
        elif z3.is_add(x):
            todo.extend((c, k) for c in x.children())
        elif z3.is_sub(x):
            cs = x.children()
            todo.append((cs[0], k))
            todo.extend((c, -k) for c in cs[1:])
        elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
            todo.append((x.arg(0), -k))
        elif z3.is_mul(x) and any(z3.is_int_value(c) for c in x.children()):
            c = 1
            rest = []
            for y in x.children():
                if z3.is_int_value(y):
                    c *= y.as_long()
                else:
                    rest.append(y)
            if not rest:
                const += k * c
            elif len(rest) == 1:
                todo.append((rest[0], k * c))
            else:
                r = rest[0]
                for y in rest[1:]:
                    r = r * y
                coefs[r.get_id()] = coefs.get(r.get_id(), 0) + k * c
                atoms[r.get_id()] = r
        else:
            coefs[x.get_id()] = coefs.get(x.get_id(), 0) + k
            atoms[x.get_id()] = x
    coefs = {i: c for i, c in coefs.items() if c}
    return coefs, const, atoms


def unaff(coefs, const, atoms):
    r = None
    for i in sorted(coefs, key=lambda i: str(atoms[i])):
        c = coefs[i]
        t = atoms[i] if c == 1 else c * atoms[i]
        r = t if r is None else r + t
    if r is None:
        return const
    return r + const if const else r


def norm(t):
    return unaff(*aff(t))


def divmod_aff(t, m):
    """(quotient term, remainder int) when the remainder is syntactically known, else None"""
    coefs, const, atoms = aff(t)
    if any(c % m for c in coefs.values()):
        return None
    return unaff({i: c // m for i, c in coefs.items()}, const // m, atoms), const % m


def np_repeat(a, k):
    k = int(k)
    rd = a.snapshot()
    if not isinstance(a.axis, PosAxis):
        a = positional(a)
        rd = a.snapshot()

    def cell(q):
        dm = divmod_aff(q, k)
        if dm is not None:
            return rd(dm[0])
        return rd(q / k if not isq(q) else q // k)
    return NDArr(PosAxis(core.RMUL(a.axis.n, k)), cell)


def positional(v):
    """NDArr over positions for a vector on a whole-day axis"""
    if isinstance(v.axis, PosAxis):
        return v
    ax = v.axis
    if not ax.whole:
        raise Unsupported('positions of an irregular axis')
    days = canonical(ax.days)
    rd = v.snapshot()

    def cell(q):
        dm = divmod_aff(q, ax.K)
        if dm is None:
            if ax.K == 1:
                return rd(days.at(q), 0)
            raise Unsupported('position')
        return rd(days.at(dm[0]), dm[1])
    return NDArr(PosAxis(ax.length()), cell)


# ------------------------------------------------------------ series

class Series(NDArr):
    kind = 'series'
    _group = None

    def _new(self, axis, cell):
        return Series(axis, cell, self.name)

    @property
    def index(self):
        ix = self.__dict__.get('_index')
        if ix is None:
            ix = DIndex(self.axis)
            if self.frozen:
                object.__setattr__(ix, 'frozen', self.frozen)
            self.__dict__['_index'] = ix
        return ix

    @index.setter
    def index(self, ix):
        if self.frozen:
            ENG.frame_log.append((self.frozen, 'index replaced'))
        if not isinstance(ix, DIndex):
            raise Unsupported('index = ' + type(ix).__name__)
        rd = relabel(self, ix.axis)
        self.axis = ix.axis
        self._cell = rd
        self._memo = {}
        self.__dict__['_index'] = ix

    @property
    def values(self):
        return NDArr(self.axis, self.snapshot())

    def to_numpy(self):
        return self.values

    def to_frame(self, name=None):
        return Frame(self.axis, {name or self.name: self})

    @property
    def loc(self):
        return SeriesLoc(self)

    @property
    def iloc(self):
        return SeriesILoc(self)

    def items(self):
        return ItemsIter(self)

    def __getitem__(self, k):
        if isinstance(k, DIndex):
            return self._by_index(k)
        if isinstance(k, DayStr):
            if not ENG.decide(OR(*[self.axis.has(k.d, s) for s in self.axis.slots()][:1 if self.axis.whole else None])):
                raise KeyError(k)
            return Series(single_day(self.axis, k.d), self.snapshot())
        if isinstance(k, TS):
            return self._by_ts(k)
        if isinstance(k, Vec):
            if not self._is_mask(k):
                return self._by_values(k)
            rk = aligned_reader(k, self.axis)
            if self._is_mask(k):
                return Series(filter_axis(self.axis, rk), self.snapshot())
            return self._by_values(k)
        if isinstance(k, slice):
            if any(isinstance(x, (TS, DayStr)) for x in (k.start, k.stop)):
                return self._by_range(k)
            if k == slice(None):
                return self.copy()
            if self.axis.K == 1:
                return Series(slice_axis(self.axis, k), self.snapshot())
        raise Unsupported('series[%s]' % type(k).__name__)

    def _is_mask(self, k):
        d = z3.Int('?probe')
        try:
            x = k.at(d) if isinstance(k.axis, (PosAxis, PosSel)) else k.at(d, 0)
        except TypeError:
            raise Unsupported('mask')
        return isinstance(x, (bool, SBool))

    def _by_values(self, k):
        d = z3.Int('?probe')
        if self.axis.K == 1 and all(isinstance(k.at(d, s), (DateOnly, TS)) for s in k.axis.slots()):
            # one row per key, found by its date
            rk, rd, a = k.snapshot(), self.snapshot(), self.axis
            dd = z3.Int(ENG.name('key'))
            for s in k.axis.slots():
                x = rk(dd, s)
                if isinstance(x, TS) and not (isq(x.sec) and x.sec == 0):
                    raise Unsupported('selection by time stamps')
                if not ENG.prove('every selected date exists (no KeyError)', IMP(k.axis.has(dd, s), a.has(x.d, 0)), quiet=True):
                    raise Unsupported('a selected date may be absent')
            return Rows(k.axis, lambda *l: rd(rk(*l).d, 0))
        raise Unsupported('selection by values')

    def _by_index(self, k):
        if not subset_axis(k.axis, self.axis):
            d = z3.Int(ENG.name('key'))
            goal = AND(*[IMP(k.axis.has(d, s), self.axis.has(d, s)) for s in k.axis.slots()]) if k.axis.K == self.axis.K else False
            if goal is False or not ENG.prove('every selected label exists (no KeyError)', goal):
                raise KeyError('labels not in index')
        rd = label_reader(self, k.axis)
        return Series(k.axis, rd)

    def _by_ts(self, k):
        sl = self._slot(k)
        h = self.axis.has(k.d, sl)
        if not ENG.known(h):
            if not ENG.decide(zbool(h)):
                raise KeyError('timestamp')
        return self.at(k.d, sl)

    def _slot(self, k):
        sec = k.sec
        if not isq(sec):
            raise Unsupported('symbolic time of day as a key')
        sl = F(sec) * self.axis.K / 86400
        if sl.denominator != 1:
            raise KeyError('timestamp')
        return int(sl)

    def _range_mask(self, k):
        K = self.axis.K
        lo, hi = k.start, k.stop

        def m(d, s):
            t = F(86400, K) * s
            c = []
            if lo is not None:
                a = TS(lo.d, 0) if isinstance(lo, DayStr) else lo
                c.append(asbool(TS(d, t) >= a))
            if hi is not None:
                a = TS(hi.d, 86399) if isinstance(hi, DayStr) else hi
                c.append(asbool(TS(d, t) <= a))
            return mkbool(AND(*c))
        return m

    def _by_range(self, k):
        return Series(filter_axis(self.axis, self._range_mask(k)), self.snapshot())

    def __setitem__(self, k, val):
        old = self.snapshot()
        if isinstance(k, slice) and k == slice(None):
            self._set_all(val)
            return
        if isinstance(k, slice) and any(isinstance(x, (TS, DayStr)) for x in (k.start, k.stop)):
            m = self._range_mask(k)
            if isinstance(val, Vec):
                raise Unsupported('range assignment of a vector')
            self._set_cell(lambda d, s: choose(asbool(m(d, s)), val, old(d, s)))
            return
        if isinstance(k, DayStr):
            day = single_day(self.axis, k.d)
            self._assign(lambda d, s: day.has(d, s), day, val, old)
            return
        if isinstance(k, TS) and not isq(k.sec):
            L = F(86400, self.axis.K)
            at = [core.REQ(k.sec, L * s) for s in self.axis.slots()]
            if not ENG.known(OR(*at)):
                raise Unsupported('symbolic time of day as a key')
            if not (ENG.known(self.axis.has(k.d, 0)) if self.axis.whole else all(ENG.known(IMP(at[s], self.axis.has(k.d, s))) for s in self.axis.slots())):
                raise Unsupported('assignment may enlarge the series')
            self._set_cell(lambda d, s: choose(AND(core.REQ(d, k.d), at[s]), val, old(d, s)))
            return
        if isinstance(k, TS):
            sl = self._slot(k)
            h = self.axis.has(k.d, sl)
            if not ENG.known(h):
                raise Unsupported('assignment may enlarge the series')
            self._set_cell(lambda d, s: choose(core.REQ(d, k.d), val, old(d, s)) if s == sl else old(d, s))
            return
        if isinstance(k, DIndex):
            if not subset_axis(k.axis, self.axis):
                raise KeyError('labels not in index')
            ka = k.axis
            kk = F(ka.K, self.axis.K)

            def m(d, s):
                t = s * kk
                return ka.has(d, int(t)) if t.denominator == 1 else False
            if isinstance(val, Series):
                rv = label_reader(val, self.axis)
                self._set_cell(lambda d, s: choose(m(d, s), rv(d, s), old(d, s)))
            elif isinstance(val, Vec):
                if ka.K != self.axis.K:
                    rv0 = relabel(val, ka)
                    self._set_cell(lambda d, s: choose(m(d, s), rv0(d, int(s * kk)), old(d, s)) if (s * kk).denominator == 1 else old(d, s))
                else:
                    rv = relabel(val, ka)
                    self._set_cell(lambda d, s: choose(m(d, s), rv(d, s), old(d, s)))
            else:
                self._set_cell(lambda d, s: choose(m(d, s), val, old(d, s)))
            return
        if isinstance(k, Vec):
            if not self._is_mask(k):
                raise Unsupported('series[values] = ...')
            rk = aligned_reader(k, self.axis)
            self._assign(lambda *l: asbool(rk(*l)), None, val, old)
            return
        raise Unsupported('series[%s] = ...' % type(k).__name__)

    def _assign(self, mask, sub, val, old):
        if isinstance(val, Series):
            if sub is not None:
                # label selection with a Series value: aligned on the labels
                rv = label_reader(val, self.axis)
            else:
                rv = label_reader(val, self.axis)
            self._set_cell(lambda *l: choose(mask(*l), rv(*l), old(*l)))
        elif isinstance(val, Vec):
            if same_axis(val.axis, self.axis):
                rv = relabel(val, self.axis)
            else:
                rv = relabel(val, sub if sub is not None else filter_axis(self.axis, mask))
            self._set_cell(lambda *l: choose(mask(*l), rv(*l), old(*l)))
        elif num(val) is not None or isinstance(val, (bool, SBool)):
            self._set_cell(lambda *l: choose(mask(*l), val, old(*l)))
        else:
            raise Unsupported('assignment of ' + type(val).__name__)

    # ---- reshaping along time
    def reindex(self, index, method=None, limit=None, fill_value=NAN):
        trust('reindex')
        if not isinstance(index, DIndex):
            raise Unsupported('reindex to ' + type(index).__name__)
        if method is None:
            return Series(index.axis, label_reader(self, index.axis, fill_value), self.name)
        if method not in ('ffill', 'pad'):
            raise Unsupported('reindex method')
        return Series(index.axis, ffill_labels(self, index.axis, limit), self.name)

    def ffill(self, limit=None):
        trust('ffill')
        return ffill(self, limit)

    def shift(self, periods=1, freq=None, fill_value=NAN):
        trust('shift')
        rd = self.snapshot()
        k = num(periods)
        if freq is not None:
            if freq not in ('D', '1D', 'd') or not self.axis.whole:
                raise Unsupported('shift freq')
            a = self.axis
            ax = Axis(a.K, PredDays(lambda d: a.days.has(core.RSUB(d, k.v)), 'shift'))
            return Series(ax, lambda d, s: rd(core.RSUB(d, k.v), s))
        return Series(self.axis, pos_shift(self, k, fill_value))

    def resample(self, rule):
        return Resampler(self, rule)

    def asfreq(self, f):
        if K_of(f) != self.axis.K:
            raise Unsupported('asfreq')
        r = DIndex(self.axis)
        a, b = r.min(), r.max()
        return self.reindex(date_range(a, b, f))

    def groupby(self, key):
        return GroupBy(self, key)

    def sort_index(self):
        return self.copy()

    def dropna(self, how=None):
        rd = self.snapshot()
        return Series(filter_axis(self.axis, lambda *l: mkbool(NOT(num(rd(*l)).nan))), rd)

    def drop(self, index=None, labels=None):
        raise Unsupported('drop')

    def apply(self, f):
        return map_cells(self, f)

    map = apply

    def where(self, cond, other=NAN):
        rk = aligned_reader(cond, self.axis)
        rd = self.snapshot()
        if isinstance(other, Vec):
            ro = aligned_reader(other, self.axis)
        else:
            ro = lambda *l: other
        return Series(self.axis, lambda *l: choose(asbool(rk(*l)), rd(*l), ro(*l)))

    def mask(self, cond, other=NAN):
        return self.where(~cond, other)

    def sum(self, skipna=True):
        return total(self, skipna)

    def mean(self, skipna=True):
        return average(self, skipna)

    def min(self):
        raise Unsupported('min')

    def max(self):
        raise Unsupported('max')

    def rename(self, n):
        r = self.copy()
        r.name = n
        return r

    def equals(self, o):
        raise Unsupported('equals')

    def cumsum(self):
        raise Unsupported('cumsum of a series')

    def interpolate(self, method='linear', **kw):
        """any values where there were none; values that are present are kept"""
        trust('Series.interpolate keeps the values that are present; values between two present values lie between them')
        if kw.get('inplace'):
            raise Unsupported('interpolate inplace')
        rd = self.snapshot()
        f = ENG.func('interp', 'I', 'I', 'R')
        g = ENG.func('interp_nan', 'I', 'I', 'B')

        def cell(d, s):
            x = num(rd(d, s))
            return choose(NOT(x.nan), x, SF(f(core.zr(d), core.zr(s)), g(core.zr(d), core.zr(s))))
        if method == 'linear' and not set(kw) - {'limit', 'inplace'}:
            ENG.cache[('interp', id(cell))] = Interpolation(self.axis, rd, f, g, kw.get('limit'), cell)
        return Series(self.axis, cell)


class Interpolation:
    """neighbouring present values of a linear interpolation by position

    before(d, s): (exists, value, steps) of the last value present at or before the label, after(d, s) of the first
    one present at or after it, both looked for from label to label without gaps (a label not in the series ends
    the search with nothing found).
    """

    def __init__(self, ax, rd, f, g, limit, cell):
        self.axis, self.rd, self.f, self.g, self.limit, self.cell = ax, rd, f, g, limit, cell
        self.fn = {}
        for n in ('before', 'after'):
            self.fn[n] = ENG.func('i' + n + '_e', 'I', 'I', 'B'), ENG.func('i' + n + '_v', 'I', 'I', 'R'), ENG.func('i' + n + '_n', 'I', 'I', 'I')
        self.known = {}

    def look(self, n, d, s):
        K = self.axis.K
        e, v, c = (h(core.zr(d), core.zr(s)) for h in self.fn[n])
        k = (n, core.zr(d).get_id(), s)
        if k not in self.known:
            d2, s2 = (d, s - 1) if n == 'before' else (d, s + 1)
            if s2 < 0:
                d2, s2 = z3.simplify(core.zr(d) - 1), K - 1
            elif s2 >= K:
                d2, s2 = z3.simplify(core.zr(d) + 1), 0
            x = num(self.rd(d, s))
            e2, v2, c2 = (h(core.zr(d2), core.zr(s2)) for h in self.fn[n])
            there = self.axis.has(d, s)
            fs = [core.IFF(e, AND(there, OR(NOT(x.nan), e2))),
                  IMP(AND(there, NOT(x.nan)), AND(core.REQ(v, x.v), c == 0)),
                  IMP(AND(there, x.nan), AND(v == v2, c == c2 + 1))]
            for t in fs:
                ENG.fact(t)
            self.known[k] = (d, fs)
        return (e, v, c), self.known[k][1]

    def bound(self, d, s):
        """the interpolated value lies between its neighbours"""
        x = num(self.rd(d, s))
        (e1, v1, c1), _ = self.look('before', d, s)
        (e2, v2, c2), _ = self.look('after', d, s)
        R, N = self.f(core.zr(d), core.zr(s)), self.g(core.zr(d), core.zr(s))
        t = IMP(AND(self.axis.has(d, s), x.nan, e1, e2), AND(OR(N, AND(OR(v1 <= R, v2 <= R), OR(R <= v1, R <= v2))),
                                                             IMP(True if self.limit is None else c1 <= int(self.limit), NOT(N))))
        ENG.fact(t)
        return t


def zbool(h):
    return h


def map_cells(v, f):
    rd = v.snapshot()
    return Series(v.axis, lambda *l: f(rd(*l)))


class ItemsIter:
    def __init__(self, series):
        self.series = series

    def __iter__(self):
        raise Unsupported('iteration over items')


class Rows:
    """rows selected by repeated labels; only their values can be used"""

    def __init__(self, axis, cell):
        self.values = NDArr(axis, cell)

    def to_numpy(self):
        return self.values


class SeriesLoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        return self.s[k]

    def __setitem__(self, k, v):
        self.s[k] = v


class SeriesILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        s = self.s
        if isinstance(k, int) and k in (0, -1):
            t = DIndex(s.axis)._end(k)
            return s.at(t.d, s._slot(t))
        if isinstance(k, slice):
            if s.axis.K == 1:
                return Series(slice_axis(s.axis, k), s.snapshot())
            m = lastdays(s.axis, k)
            return Series(filter_axis(s.axis, m), s.snapshot())
        raise Unsupported('iloc')

    def __setitem__(self, k, val):
        s = self.s
        old = s.snapshot()
        if isinstance(k, int) and k in (0, -1):
            t = DIndex(s.axis)._end(k)
            sl = s._slot(t)
            s._set_cell(lambda d, x: choose(core.REQ(d, t.d), val, old(d, x)) if x == sl else old(d, x))
            return
        if isinstance(k, slice):
            m = lastdays(s.axis, k)
            if isinstance(val, Vec):
                rv = relabel(val, filter_axis(s.axis, m))
                s._set_cell(lambda *l: choose(asbool(m(*l)), rv(*l), old(*l)))
            else:
                s._set_cell(lambda *l: choose(asbool(m(*l)), val, old(*l)))
            return
        raise Unsupported('iloc')


def lastdays(axis, k):
    """positional slice of a sub-daily whole-day axis, by whole days"""
    K = axis.K
    if not axis.whole or k.step is not None:
        raise Unsupported('iloc slice')
    days = canonical(axis.days)
    if k.stop is None and isinstance(k.start, int) and k.start < 0 and -k.start % K == 0:
        m = -k.start // K
        if m == 1:
            return lambda d, s: mkbool(core.REQ(d, days.last))
        return lambda d, s: mkbool(core.RLE(core.RSUB(days.n, m), days.pos(d)))
    if k.start is None and isinstance(k.stop, int) and k.stop > 0 and k.stop % K == 0:
        m = k.stop // K
        if m == 1:
            return lambda d, s: mkbool(core.REQ(d, days.first))
        return lambda d, s: mkbool(core.RLT(days.pos(d), m))
    raise Unsupported('iloc slice')


# ---- neighbours in time

def prevday(axis, d, group=None, forward=False):
    """(exists, day): the previous (next) day of the axis, within the group if given"""
    days = canonical(axis.days)
    key = ('prev', id(days), group and group[0], forward, d.get_id() if z3.is_expr(d) else d)
    if key in ENG.cache:
        return ENG.cache[key][0]
    if group is None and isinstance(days, RangeDays):
        x = core.RADD(d, 1 if forward else -1)
        r = (days.has(x), x)
    elif group is None and isinstance(days, DaySet):
        p = days.pos(d)
        q = core.RADD(p, 1 if forward else -1)
        ok = AND(core.RLE(0, q), core.RLT(q, days.n))
        x = days.at(q)
        # nothing in between
        ENG.fact(IMP(AND(ok, days.has(d)), (x > d) if forward else (x < d)))
        for e in list(days.known.values()):
            lo, hi = (d, x) if forward else (x, d)
            ENG.pairfact(IMP(AND(ok, days.has(d), zr(lo) < e, e < zr(hi)), NOT(days.HAS(e))), quick=True)
        nb = core.RADD(d, 1 if forward else -1)
        ENG.fact(IMP(AND(days.has(d), days.has(nb)), AND(ok, core.REQ(x, nb))))
        r = (ok, x)
    else:
        nm = 'pg_%s' % (group[0] if group else 'sel')
        fx = z3.Function(nm + '_ex', core.I, z3.BoolSort())
        fd = z3.Function(nm + '_day', core.I, core.I)
        dz = zr(d)
        ex, x = fx(dz), fd(dz)
        ENG.fact(IMP(ex, AND(days.has(x), (x > dz) if forward else (x < dz))))
        if group:
            ENG.fact(IMP(ex, group[1](x) == group[1](dz)))
        r = (ex, x)
    ENG.cache[key] = (r, d, days)
    return r


def ffill(v, limit):
    """forward fill along the axis (within the group of v, if any)"""
    if limit is None:
        raise Unsupported('unlimited forward fill')
    limit = int(limit)
    a = v.axis
    if not a.whole:
        raise Unsupported('forward fill on an irregular axis')
    rd = v.snapshot()
    group = v._group

    def cell(d, s):
        # nearest non-missing cell among the `limit` preceding positions
        path = [(True, d, s)]
        ok, dd, ss = True, d, s
        for _ in range(limit):
            ss -= 1
            if ss < 0:
                ex, dd = prevday(a, dd, group)
                ok = AND(ok, ex)
                ss = a.K - 1
                if ok is False:
                    break
            path.append((ok, dd, ss))
        val = NAN
        for ok, dd, ss in reversed(path):
            x = num(rd(dd, ss))
            val = choose(AND(ok, NOT(x.nan)), x, val)
        return val
    return Series(a, cell, v.name)


def ffill_labels(v, axis, limit):
    """reindex(method='ffill')"""
    a = v.axis
    rd = v.snapshot()
    if not a.whole or axis.K % a.K:
        raise Unsupported('reindex(ffill)')
    r = axis.K // a.K
    days = canonical(a.days)
    if limit is not None and limit < r - 1:
        lim = int(limit)
    else:
        lim = None

    def cell(d, s):
        h = a.has(d, 0)
        t = s // r
        x = rd(d, t)
        if lim is not None and s - t * r > lim:
            x = NAN
        if ENG.known(IMP(axis.has(d, s), h)):
            return x
        if limit is not None:
            raise Unsupported('reindex(ffill, limit) over absent days')
        # the label precedes the next source label: last source day before d
        if isinstance(days, RangeDays):
            after = core.RLT(days.last, d)
            y = rd(days.last, a.K - 1)
            return choose(h, x, choose(AND(after, core.RLE(days.first, days.last)), y, NAN))
        ex = ENG_prevfn(days, d)
        return choose(h, x, choose(ex[0], rd(ex[1], a.K - 1), NAN))
    return cell


def ENG_prevfn(days, d):
    """(exists, last day of the set before d), d arbitrary"""
    dz = zr(d)
    f = z3.Function('lastbefore_%s' % days.name, core.I, core.I)
    x = f(dz)
    ex = core.RLT(days.first, d)
    ENG.fact(IMP(ex, AND(days.has(x), x < dz)))
    for e in list(getattr(days, 'known', {}).values()):
        ENG.pairfact(IMP(AND(ex, x < e, e < dz), NOT(days.HAS(e))), quick=True)
    return ex, x


def pos_shift(v, k, fill):
    a = v.axis
    rd = v.snapshot()
    if isinstance(a, PosAxis):
        return lambda q: choose(AND(core.RLE(0, core.RSUB(q, k.v)), core.RLT(core.RSUB(q, k.v), a.n)), rd(core.RSUB(q, k.v)), fill)
    if not k.const():
        raise Unsupported('shift by a symbolic number of steps')
    k = int(k.v)
    if not a.whole:
        raise Unsupported('shift on an irregular axis')

    def cell(d, s):
        ok, dd, ss = True, d, s - k
        while ss < 0:
            ex, dd = prevday(a, dd)
            ok = AND(ok, ex)
            ss += a.K
        while ss >= a.K:
            ex, dd = prevday(a, dd, forward=True)
            ok = AND(ok, ex)
            ss -= a.K
        return choose(ok, rd(dd, ss), fill)
    return cell


# ---- reductions

def slot_cells(v, axis, d):
    """(present, value) for every slot of day d"""
    return [(axis.has(d, s), v(d, s)) for s in axis.slots()]


def agg_cells(cells, how, skipna=True):
    """aggregate a finite list of (present, number)"""
    xs = [(p, num(x)) for p, x in cells if p is not False]
    if how == 'sum':
        acc = SF(0)
        for p, x in xs:
            use = AND(p, NOT(x.nan)) if skipna else p
            acc = acc + choose(use, x, SF(0)) if skipna else acc + choose(p, x, SF(0))
        return acc
    if how == 'count':
        acc = SF(0)
        for p, x in xs:
            acc = acc + SF(core.RITE(AND(p, NOT(x.nan)), 1, 0))
        return acc
    if how == 'mean':
        valid = [AND(p, NOT(x.nan)) for p, x in xs]
        if not xs:
            return NAN
        for (_, x), ok in zip(xs, valid):
            if (x.pinf is not False or x.ninf is not False) and not ENG.known(NOT(AND(ok, OR(x.pinf, x.ninf)))):
                raise Unsupported('mean of infinite values')
        xs = [(p, SF(x.v, x.nan)) for p, x in xs]
        if all(v is True for v in valid):
            acc = SF(0)
            for _, x in xs:
                acc = acc + SF(x.v)
            return acc / len(xs)
        # m is the mean iff sum over the valid cells of (x - m) is zero
        m = ENG.meanof([(v, x.v) for v, x in zip(valid, xs_vals(xs))])
        anyv = OR(*valid)
        nan = NOT(anyv)
        if not skipna:
            nan = OR(nan, *[AND(p, x.nan) for p, x in xs])
        return SF(m, nan)
    if how in ('min', 'max'):
        acc = NAN
        for p, x in xs:
            use = AND(p, NOT(x.nan))
            better = OR(acc.nan, asbool((x < acc) if how == 'min' else (x > acc)))
            acc = choose(AND(use, better), x, acc)
        return acc
    if how == 'first':
        acc = NAN
        for p, x in reversed(xs):
            acc = choose(AND(p, NOT(x.nan)), x, acc)
        return acc
    raise Unsupported('aggregation ' + how)


def xs_vals(xs):
    return [x for _, x in xs]


def total_of(ts):
    acc = 0
    for t in ts:
        acc = core.RADD(acc, t)
    return acc


def _meanof(self, cells):
    """fresh real m with sum_{valid}(x - m) == 0 (function of the same cells)"""
    key = tuple((v.get_id() if z3.is_expr(v) else v, x.get_id() if z3.is_expr(x) else x) for v, x in cells)
    hit = self.cache.get(('mean', key))
    if hit:
        return hit[0]
    m = self.fresh('mean')
    self.fact(core.REQ(total_of([core.RITE(v, core.RSUB(x, m), 0) for v, x in cells]), 0))
    self.cache[('mean', key)] = (m, cells)
    return m


core.Engine.meanof = _meanof


def total(v, skipna=True):
    a = v.axis
    if getattr(a, 'single', None) is not None:
        return agg_cells(slot_cells(v.snapshot(), a, a.single), 'sum', skipna)
    if isinstance(a, Axis) and a.whole and a.K == 1:
        d = z3.Int('?probe')
        if isinstance(v.at(d, 0), (bool, SBool)):
            rd = v.snapshot()
            p = PredDays(lambda x: AND(a.has(x, 0), asbool(rd(x, 0))), 'count')
            ENG.templates.append(('count', p))
            return SF(p.n)
    raise Unsupported('sum over an unbounded axis')


def average(v, skipna=True):
    a = v.axis
    if getattr(a, 'single', None) is not None:
        return agg_cells(slot_cells(v.snapshot(), a, a.single), 'mean', skipna)
    raise Unsupported('mean over an unbounded axis')


def K_of(rule):
    """slots per day of a frequency string"""
    trust('frequency strings')
    r = rule.strip()
    i = 0
    while i < len(r) and (r[i].isdigit() or r[i] == '.'):
        i += 1
    n = F(r[:i]) if i else F(1)
    unit = r[i:]
    us = {'D': 86400 * 10**6, 'd': 86400 * 10**6, 'h': 3600 * 10**6, 'H': 3600 * 10**6, 'min': 60 * 10**6, 'T': 60 * 10**6,
          's': 10**6, 'ms': 1000, 'us': 1, 'ns': F(1, 1000)}
    if unit not in us:
        raise Unsupported('frequency %r' % rule)
    K = F(86400 * 10**6) / (n * us[unit])
    if K.denominator != 1:
        raise Unsupported('frequency %r does not divide a day' % rule)
    return int(K)


class Resampler:
    def __init__(self, v, rule):
        trust('resample')
        self.v = v
        self.K = K_of(rule)

    def _agg(self, how, **kw):
        if isinstance(self.v, Frame):
            return Frame(None, {c: Resampler_of(s, self.K)._agg(how, **kw) for c, s in self.v.cols.items()})
        a = self.v.axis
        rd = self.v.snapshot()
        K = self.K
        if K > a.K:
            raise Unsupported('upsampling')
        first, last = axis_day_range(a)
        if K == 1:
            out = Axis(1, RangeDays(first, last)) if not (a.whole and isinstance(canonical(a.days), RangeDays)) else Axis(1, canonical(a.days))
        else:
            if not a.whole:
                raise Unsupported('resample of an irregular axis')
            days = canonical(a.days)
            out = Axis(K, days if isinstance(days, RangeDays) else RangeDays(days.first, days.last))

        def cell(d, s):
            # source slots with floor(t * K / aK) == s
            cells = []
            for t in a.slots():
                if t * K // a.K == s:
                    h = a.has(d, t)
                    if h is not True and ENG.known(IMP(out.has(d, s), h)):
                        h = True
                    cells.append((h, rd(d, t)))
            return agg_cells(cells, how, **kw)
        return Series(out, cell)

    def mean(self):
        return self._agg('mean')

    def sum(self, min_count=0):
        if min_count:
            raise Unsupported('min_count')
        return self._agg('sum')

    def min(self):
        return self._agg('min')

    def max(self):
        return self._agg('max')

    def first(self):
        return self._agg('first')

    def count(self):
        return self._agg('count')

    def ffill(self, limit=None):
        raise Unsupported('resample.ffill')


def Resampler_of(s, K):
    r = Resampler.__new__(Resampler)
    r.v, r.K = s, K
    return r


def axis_day_range(a):
    if a.whole:
        days = canonical(a.days)
        return days.first, days.last
    e = getattr(a, 'dayrange', None)
    if e is None:
        raise Unsupported('range of an irregular axis')
    return e


class GroupBy:
    def __init__(self, v, key):
        trust('groupby')
        self.v = v
        self.key = key

    def _kind(self):
        """('dom', fn) / ('date',) recognised from the key's cells"""
        k = self.key
        if isinstance(k, Vec):
            d = z3.Int('?probe')
            rk = relabel(k, self.v.axis)
            vals = [rk(d, s) for s in self.v.axis.slots()]
            if all(isinstance(x, DateOnly) and core.REQ(x.d, d) is True for x in vals):
                return ('date', None)
            if all(isinstance(x, SF) and x.plain and z3.is_expr(x.v) and x.v.eq(DOMt(d)) for x in vals):
                return ('dom', DOMt)
            if all(isinstance(x, SF) and x.plain and z3.is_expr(x.v) and x.v.eq(MONTHt(d)) for x in vals):
                return ('month', MONTHt)
        return None

    def transform(self, f):
        kind = self._kind()
        if kind is None:
            raise Unsupported('groupby key')
        g = Series(self.v.axis, self.v.snapshot())
        if kind[0] == 'date':
            g._group = ('date', lambda d: d)
        else:
            g._group = kind
        r = f(g) if callable(f) else getattr(g, f)()
        if not isinstance(r, Series) or not same_axis(r.axis, self.v.axis):
            raise Unsupported('transform result')
        return Series(self.v.axis, r.snapshot())

    def _agg(self, how):
        if isinstance(self.key, (list, tuple)):
            if not all(isinstance(k, Vec) for k in self.key):
                raise Unsupported('groupby keys')
            from .tables import KeyedAgg
            return KeyedAgg(self.v, list(self.key), how)
        kind = self._kind()
        a, rd = self.v.axis, self.v.snapshot()
        if kind and kind[0] == 'date':
            out = Axis(1, canonical(a.days)) if a.whole else Axis(1, PredDays(lambda d: OR(*[a.has(d, s) for s in a.slots()])))
            r = Series(out, lambda d, s: agg_cells(slot_cells(rd, a, d), how))
            r.datekeys = True
            return r
        if kind and kind[0] == 'month' and a.K == 1:
            from .tables import monthly
            return monthly(self.v, how)
        raise Unsupported('groupby aggregation')

    def mean(self):
        return self._agg('mean')

    def min(self):
        return self._agg('min')

    def max(self):
        return self._agg('max')

    def sum(self):
        return self._agg('sum')

    def first(self):
        return self._agg('first')

    def ffill(self, limit=None):
        return self.transform(lambda x: x.ffill(limit=limit))


def DOMt(d):
    from .axis import DOM
    return DOM(zr(d))


def MONTHt(d):
    from .axis import MONTH
    return MONTH(zr(d))


# ------------------------------------------------------------ frames

class Frame:
    frozen = None
    kind = 'frame'
    _own = ('axis', 'cols', 'frozen', 'fname', '_ix')

    def __init__(self, axis, cols=None, frozen=None):
        object.__setattr__(self, 'cols', dict(cols or {}))
        if axis is None and self.cols:
            axis = next(iter(self.cols.values())).axis
        object.__setattr__(self, 'axis', axis)
        object.__setattr__(self, 'frozen', frozen)
        object.__setattr__(self, '_ix', None)

    def _lift_other(self):
        pass

    @property
    def index(self):
        if self._ix is None:
            if self.axis is None:
                raise Unsupported('index of an empty frame')
            ix = DIndex(self.axis)
            object.__setattr__(ix, 'frozen', self.frozen)
            object.__setattr__(self, '_ix', ix)
        return self._ix

    @property
    def columns(self):
        return Columns(self)

    def _len(self):
        return mknum(self.axis.length())

    @property
    def empty(self):
        raise Unsupported('empty')

    def __contains__(self, c):
        return c in self.cols

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        cols = self.__dict__.get('cols', {})
        if k in cols:
            return self[k]
        if k == 'precip_daily':
            pass
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k == 'index':
            for s in self.cols.values():
                s.index = v
            object.__setattr__(self, 'axis', v.axis)
            object.__setattr__(self, '_ix', v)
            return
        if k == 'columns':
            self._rename(v)
            return
        if k in self.cols:
            self[k] = v
            return
        raise Unsupported('frame attribute ' + k)

    def _rename(self, v):
        names = list(v)
        if self.frozen:
            ENG.frame_log.append((self.frozen, 'columns renamed'))
        if len(names) != len(self.cols):
            raise ValueError('Length mismatch')
        object.__setattr__(self, 'cols', dict(zip(names, self.cols.values())))

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise KeyError(k)
            s = self.cols[k]
            r = Series(s.axis, s.snapshot(), k)
            # a column has an index object of its own (copy on write)
            ix = DIndex(self.index.axis, self.index._freq)
            ix.name = self.index.name
            r.__dict__['_index'] = ix
            return r
        if isinstance(k, list) and all(isinstance(c, str) for c in k):
            return Frame(self.axis, {c: self[c] for c in k})
        if isinstance(k, Vec):
            rk = aligned_reader(k, self.axis)
            ax = filter_axis(self.axis, rk)
            return Frame(ax, {c: Series(ax, s.snapshot(), c) for c, s in self.cols.items()})
        if isinstance(k, slice):
            if any(isinstance(x, (TS, DayStr)) for x in (k.start, k.stop)):
                s0 = next(iter(self.cols.values()))
                ax = filter_axis(self.axis, s0._range_mask(k))
                return Frame(ax, {c: Series(ax, s.snapshot(), c) for c, s in self.cols.items()})
        raise Unsupported('frame[%s]' % type(k).__name__)

    def get(self, k, default=None):
        return self[k] if k in self.cols else default

    def __setitem__(self, k, v):
        if self.frozen:
            ENG.frame_log.append((self.frozen, 'column %s written' % (k,)))
        if not isinstance(k, str):
            raise Unsupported('frame[%s] = ...' % type(k).__name__)
        ENG.mutlog.append((self, dict(self.cols)))
        for l in ENG.loop_stack:
            l.note_frame(self)
        if self.axis is None:
            if not isinstance(v, Series):
                raise Unsupported('first column of an empty frame')
            object.__setattr__(self, 'axis', v.axis)
        if isinstance(v, Series):
            c = label_reader(v, self.axis)
        elif isinstance(v, Vec):
            c = relabel(v, self.axis)
        elif num(v) is not None:
            c = lambda *l: v
        else:
            raise Unsupported('column = ' + type(v).__name__)
        self.cols[k] = Series(self.axis, c, k)

    @property
    def loc(self):
        return FrameLoc(self)

    @property
    def iloc(self):
        raise Unsupported('DataFrame.iloc')

    def copy(self, deep=True):
        f = Frame(self.axis, {c: s.copy() for c, s in self.cols.items()})
        if self._ix is not None:
            ix = DIndex(self._ix.axis, self._ix._freq)
            ix.name = self._ix.name
            object.__setattr__(f, '_ix', ix)
        return f

    def reindex(self, index=None, method=None, limit=None, **kw):
        if kw or index is None:
            raise Unsupported('reindex')
        r = {c: s.reindex(index, method=method, limit=limit) for c, s in self.cols.items()}
        f = Frame(index.axis, r)
        object.__setattr__(f, '_ix', DIndex(index.axis, index._freq))
        return f

    def dropna(self, how='any', subset=None):
        cs = subset or list(self.cols)
        rds = [self.cols[c].snapshot() for c in cs]
        if how == 'any':
            m = lambda *l: mkbool(AND(*[NOT(num(r(*l)).nan) for r in rds]))
        else:
            m = lambda *l: mkbool(OR(*[NOT(num(r(*l)).nan) for r in rds]))
        ax = filter_axis(self.axis, m)
        return Frame(ax, {c: Series(ax, s.snapshot(), c) for c, s in self.cols.items()})

    def drop(self, columns=None, index=None, labels=None, axis=0):
        if index is not None or (labels is not None and axis == 0):
            from . import posframe
            return posframe.drop(self, index if index is not None else labels)
        cs = columns if columns is not None else labels
        cs = [cs] if isinstance(cs, str) else list(cs)
        for c in cs:
            if c not in self.cols:
                raise KeyError(c)
        return Frame(self.axis, {c: s for c, s in self.cols.items() if c not in cs})

    def rename(self, columns=None):
        return Frame(self.axis, {columns.get(c, c): s.copy() for c, s in self.cols.items()})

    def sort_index(self):
        return self.copy()

    def resample(self, rule):
        return Resampler(self, rule)

    def assign(self, **kw):
        r = self.copy()
        for k, v in kw.items():
            r[k] = v(r) if callable(v) else v
        return r

    def items(self):
        return [(c, self[c]) for c in self.cols]

    def iteritems(self):
        raise AttributeError('iteritems')

    def __iter__(self):
        return iter(list(self.cols))

    def _binop(self, op, o):
        if isinstance(o, Frame):
            raise Unsupported('frame op frame')
        return Frame(self.axis, {c: lift(op, s, o) for c, s in self.cols.items()})

    def __mul__(self, o):
        return self._binop(operator.mul, o)

    def __truediv__(self, o):
        return self._binop(sdiv, o)

    def __add__(self, o):
        return self._binop(operator.add, o)

    def __sub__(self, o):
        return self._binop(operator.sub, o)

    __hash__ = None


class Columns:
    def __init__(self, f):
        self.f = f

    def __contains__(self, c):
        return c in self.f.cols

    def __iter__(self):
        return iter(list(self.f.cols))

    def _items(self):
        return list(self.f.cols)

    def _len(self):
        return len(self.f.cols)

    def tolist(self):
        return list(self.f.cols)


class FrameLoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple):
            r, c = k
            return f[c].loc[r] if isinstance(c, str) else Unsupported
        if isinstance(k, DIndex):
            return Frame(k.axis, {c: s._by_index(k) for c, s in f.cols.items()})
        if isinstance(k, TS):
            return Row({c: s._by_ts(k) for c, s in f.cols.items()})
        return f[k]

    def __setitem__(self, k, v):
        f = self.f
        if f.frozen:
            ENG.frame_log.append((f.frozen, 'written through loc'))
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], str)):
            raise Unsupported('loc assignment')
        r, c = k
        if c not in f.cols:
            f[c] = NAN
        s = Series(f.axis, f.cols[c].snapshot(), c)
        if isinstance(v, Series) and isinstance(r, Vec):
            rk = aligned_reader(r, f.axis)
            rv = label_reader(v, f.axis)
            old = s.snapshot()
            s = Series(f.axis, lambda *l: choose(asbool(rk(*l)), rv(*l), old(*l)), c)
        else:
            s[r] = v
        ENG.mutlog.append((f, dict(f.cols)))
        for l in ENG.loop_stack:
            l.note_frame(f)
        f.cols[c] = s


class Row:
    def __init__(self, d):
        self.__dict__.update(d)
        self.d = d

    def __getitem__(self, k):
        return self.d[k]


def date_range(start=None, end=None, freq='D', periods=None, **kw):
    trust('date_range')
    if isinstance(start, DayStr) or isinstance(end, DayStr):
        raise Unsupported('date_range')
    K = K_of(freq)
    if periods is not None and end is None and isinstance(start, TS) and K == 1 and not kw:
        n = num(periods)
        if not n.isint():
            raise Unsupported('date_range periods')
        end = TS(core.RADD(start.d, core.RSUB(n.v, 1)), start.sec)
        periods = None
    if kw or periods is not None or not isinstance(start, TS) or not isinstance(end, TS):
        raise Unsupported('date_range arguments')
    s0, s1 = start._csec(), end._csec()
    step = F(86400, K)
    if s0 % step == 0 and K > 1 or s0 == 0:
        a = int(s0 / step)
        b = int(s1 // step)
        if a == 0 and b == K - 1:
            ax = Axis(K, RangeDays(start.d, end.d))
        else:
            f, l = start.d, end.d
            ax = Axis(K, None, lambda d, s: AND(
                core.RLE(f, d), core.RLE(d, l),
                IMP(core.REQ(d, f), s >= a), IMP(core.REQ(d, l), s <= b)))
            ax.ends = {0: TS(f, s0), -1: TS(l, step * b)}
            ax.dayrange = (f, l)
        return DIndex(ax, freq=freq)
    if K == 1 and s0 == s1 and s0 % 3600 == 0:
        h = int(s0 // 3600)
        base = RangeDays(start.d, end.d)
        ax = Axis(24, None, lambda d, s: base.has(d) if s == h else False)
        ax.oneslot = (h, base)
        ax.ends = {0: start, -1: end}
        ax.dayrange = (start.d, end.d)
        return DIndex(ax, freq=freq)
    raise Unsupported('date_range')
