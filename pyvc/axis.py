"""Days, time axes and timestamps.

A time label is a pair (d, s): day number d (z3 Int term) and slot s (Python
int, 0 <= s < K) of an axis with K equal slots per day.  Every statement about
an axis is proved for one arbitrary day d and for every slot s.
"""
from fractions import Fraction as F

import z3

from . import core
from .core import AND, IFF, IMP, NOT, OR, ENG, SBool, SF, Unsupported, asbool, isq, mkbool, num, zr

MONTH = z3.Function('month', core.I, core.I)
DOM = z3.Function('dayofmonth', core.I, core.I)
DOY = z3.Function('dayofyear', core.I, core.I)
YEAR = z3.Function('year', core.I, core.I)


def month(d):
    t = MONTH(zr(d))
    ENG.fact(t >= 1)
    ENG.fact(t <= 12)
    return t


def dom(d):
    t = DOM(zr(d))
    ENG.fact(t >= 1)
    ENG.fact(t <= 31)
    return t


def doy(d):
    t = DOY(zr(d))
    ENG.fact(t >= 1)
    ENG.fact(t <= 366)
    return t


def year(d):
    return YEAR(zr(d))


class DaySet:
    """a non-empty finite set of days, strictly increasing"""

    def __init__(self, name, contiguous=None):
        self.name = name
        self.HAS = z3.Function('has_' + name, core.I, z3.BoolSort())
        self.POS = z3.Function('pos_' + name, core.I, core.I)
        self.AT = z3.Function('day_' + name, core.I, core.I)
        self.n = z3.Int('n_' + name)
        self.first = z3.Int('first_' + name)
        self.last = z3.Int('last_' + name)
        self.known = {}
        self.kpos = {}
        ENG.hubs |= {'n_' + name, 'first_' + name, 'last_' + name}
        ENG.fact(self.n >= 1)
        ENG.fact(self.first <= self.last)
        ENG.fact(self.n <= self.last - self.first + 1)
        ENG.fact((self.n == 1) == (self.first == self.last))
        if contiguous:
            ENG.fact(self.n == self.last - self.first + 1)
        self.has(self.first)
        self.has(self.last)
        ENG.fact(self.HAS(self.first))
        ENG.fact(self.HAS(self.last))
        self.contig = self.n == self.last - self.first + 1

    def has(self, d):
        d = zr(d)
        t = self.HAS(d)
        k = d.get_id()
        if k not in self.known:
            self.known[k] = d
            ENG.fact(IMP(t, z3.And(self.first <= d, d <= self.last)))
            ENG.fact(IMP(self.contig_raw(), t == z3.And(self.first <= d, d <= self.last)))
            # a missing inner day makes the set non-contiguous
        return t

    def contig_raw(self):
        return self.n == self.last - self.first + 1

    def pos(self, d):
        d = zr(d)
        p = self.POS(d)
        k = d.get_id()
        if k not in self.kpos:
            h = self.has(d)
            ENG.fact(IMP(h, z3.And(p >= 0, p < self.n, self.AT(p) == d)))
            ENG.fact(IMP(d == self.first, p == 0))
            ENG.fact(IMP(d == self.last, p == self.n - 1))
            ENG.fact(IMP(z3.And(h, p == 0), d == self.first))
            ENG.fact(IMP(z3.And(h, p == self.n - 1), d == self.last))
            ENG.fact(IMP(AND(self.contig_raw(), h), p == d - self.first))
            for d2 in self.kpos.values():
                p2 = self.POS(d2)
                ENG.pairfact(IMP(z3.And(h, self.HAS(d2)), (d < d2) == (p < p2)), quick=True)
                ENG.pairfact(IMP(z3.And(h, self.HAS(d2)), (d == d2) == (p == p2)), quick=True)
            self.kpos[k] = d
        return p

    def at(self, i):
        """the i-th day (0 <= i < n)"""
        i = zr(i)
        d = self.AT(i)
        if ('at', i.get_id()) not in self.kpos:
            self.kpos_mark = True
            inside = z3.And(i >= 0, i < self.n)
            self.has(d)
            ENG.fact(IMP(inside, z3.And(self.HAS(d), self.POS(d) == i)))
            ENG.fact(IMP(AND(self.contig_raw(), inside), d == self.first + i))
            self.pos(d)
        return d

    def __len__(self):
        raise Unsupported('len')


class RangeDays:
    """all days first..last"""

    def __init__(self, first, last):
        self.first, self.last = first, last
        self.name = 'range'

    @property
    def n(self):
        n = core.RADD(core.RSUB(self.last, self.first), 1)
        return core.RITE(core.RLT(n, 0), 0, n) if not ENG.known(core.RLE(self.first, self.last)) else n

    def has(self, d):
        # the range from the first to the last day of a selection: the selection itself if it has no gaps
        o = ENG.cache.get(('owner', self.first.get_id())) if z3.is_expr(self.first) else None
        if o is not None and ('range', id(self), zr(d).get_id()) not in ENG.cache:
            ENG.cache[('range', id(self), zr(d).get_id())] = (self, d)
            o.witness(d)
        return AND(core.RLE(self.first, d), core.RLE(d, self.last))

    def pos(self, d):
        return core.RSUB(d, self.first)

    def at(self, i):
        return core.RADD(self.first, i)

    def contig_raw(self):
        return True


class PredDays:
    """days selected by a predicate; count and bounds are opaque"""

    def __init__(self, pred, name='sel'):
        self.pred = pred
        self.name = ENG.name(name)
        self._n = None

    def has(self, d):
        return self.pred(d)

    def _bounds(self):
        if self._n is None:
            self._n = ENG.fresh('n_' + self.name, 'I')
            self._first = ENG.fresh('first_' + self.name, 'I')
            self._last = ENG.fresh('last_' + self.name, 'I')
            ENG.cache[('owner', self._first.get_id())] = self
            ENG.fact(self._n >= 0)
            ne = self._n > 0
            ENG.fact(IMP(ne, AND(self.has(self._first), self.has(self._last), self._first <= self._last)))
            ENG.fact(IMP(NOT(ne), True))
            ENG.fact(IMP(ne, self._n <= self._last - self._first + 1))
            ENG.fact(IMP(ne, (self._n == 1) == (self._first == self._last)))

    def witness(self, d):
        """facts that tie membership of d to the count"""
        self._bounds()
        h = self.has(d)
        ENG.fact(IMP(h, AND(self._n > 0, self._first <= d, d <= self._last)))
        ENG.fact(IMP(AND(self._n > 0, self._n == self._last - self._first + 1, self._first <= d, d <= self._last), h))

    @property
    def n(self):
        self._bounds()
        return self._n

    @property
    def first(self):
        self._bounds()
        return self._first

    @property
    def last(self):
        self._bounds()
        return self._last

    def pos(self, d):
        raise Unsupported('position in a selected set of days')

    def at(self, i):
        raise Unsupported('position in a selected set of days')

    def contig_raw(self):
        self._bounds()
        return self._n == self._last - self._first + 1


class Axis:
    """time axis: K slots per day; whole=True: membership does not depend on the slot"""

    def __init__(self, K, days, hasf=None, name=None):
        self.K = K
        self.days = days            # DaySet/RangeDays/PredDays when whole days, else None
        self.hasf = hasf
        self.name = name
        self.fresh_days = {}

    def has(self, d, s):
        if self.hasf is None:
            h = self.days.has(d)
            if isinstance(self.days, PredDays):
                self.days.witness(d)
            return h
        return self.hasf(d, s)

    @property
    def whole(self):
        return self.hasf is None

    def slots(self):
        return range(self.K)

    def length(self):
        if not self.whole:
            raise Unsupported('length of an irregular time axis')
        days = canonical(self.days)
        return core.RMUL(self.K, days.n)

    def resolution_sec(self):
        return F(86400, self.K)


def generic_day(name='dd'):
    return ENG.fresh(name, 'I')


def same_days(a, b):
    if a is b:
        return True
    key = ('samedays', id(a), id(b))
    if key in ENG.cache:
        return True
    if ('other', len(ENG.pc)) + key in ENG.cache:
        return False
    d = z3.Int(ENG.name('sd'))
    ha, hb = a.has(d), b.has(d)
    for x in (a, b):
        if isinstance(x, PredDays):
            x.witness(d)
    if ENG.known(IFF(ha, hb)):
        ENG.cache[key] = (a, b)
        return True
    # (not asked again until the path condition has grown)
    ENG.cache[('other', len(ENG.pc)) + key] = (a, b)
    return False


def canonical(days):
    """a DaySet/RangeDays equal to a predicate selection, if the solver can tell"""
    if not isinstance(days, PredDays):
        return days
    c = getattr(days, '_canon', None)
    if c is not None:
        return c
    for o in getattr(ENG, 'daysets', []):
        if o is not days and same_days(days, o):
            days._canon = o
            return o
    return days


def same_axis(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, PosSel):
        q = z3.Int(ENG.name('sp'))
        return same_axis(a.base, b.base) and ENG.known(IFF(a.has(q), b.has(q)))
    if isinstance(a, PosAxis):
        return ENG.known(core.REQ(a.n, b.n))
    if a.K != b.K:
        return False
    key = ('sameaxis', id(a), id(b))
    if key in ENG.cache:
        return True
    if a.whole and b.whole:
        r = same_days(a.days, b.days)
    else:
        d = z3.Int(ENG.name('sd'))
        r = all(ENG.known(IFF(a.has(d, s), b.has(d, s))) for s in a.slots())
    if r:
        ENG.cache[key] = (a, b)
    return r


def subset_axis(a, b):
    """every label of a is a label of b"""
    if a is b or same_axis(a, b):
        return True
    d = z3.Int(ENG.name('sd'))
    for s in a.slots():
        t = s * F(b.K, a.K)
        if t.denominator != 1:
            if ENG.known(NOT(a.has(d, s))):
                continue
            return False
        if not ENG.known(IMP(a.has(d, s), b.has(d, int(t)))):
            return False
        if a.whole and b.whole and a.K == b.K:
            break
    return True


class PosAxis:
    """positions 0..n-1 of an array"""
    K = None
    whole = False

    def __init__(self, n):
        self.n = n

    def has(self, q):
        return AND(core.RLE(0, q), core.RLT(q, self.n))

    def length(self):
        return self.n


class PosSel:
    """selected positions of an array; labels are the positions in the original array"""
    K = None
    whole = False

    def __init__(self, base, mask):
        self.base, self.mask = base, mask

    def has(self, q):
        return AND(self.base.has(q), self.mask(q))

    def length(self):
        raise Unsupported('number of selected positions')


def register_days(d):
    if not hasattr(ENG, 'daysets') or ENG.daysets_path is not ENG.facts:
        ENG.daysets = []
        ENG.daysets_path = ENG.facts
    ENG.daysets.append(d)
    return d


# ---------------------------------------------------------------- timestamps

class Delta:
    def __init__(self, days=0, seconds=0):
        self.d, self.sec = days, seconds

    @property
    def days(self):
        return mknum(self.d)

    def total_seconds(self):
        return SF(core.RADD(core.RMUL(86400, self.d), self.sec))

    def __eq__(self, o):
        return self.total_seconds() == o.total_seconds()

    def __ne__(self, o):
        return self.total_seconds() != o.total_seconds()

    def __gt__(self, o):
        return self.total_seconds() > o.total_seconds()

    def __lt__(self, o):
        return self.total_seconds() < o.total_seconds()

    def __truediv__(self, o):
        return self.total_seconds() / o.total_seconds()

    __hash__ = None


def mknum(x):
    return int(x) if isq(x) and F(x).denominator == 1 else SF(x)


class TS:
    """a timestamp: day d, second of the day sec (Python number or term)"""

    def __init__(self, d, sec=0):
        self.d, self.sec = d, sec

    def _csec(self):
        if not isq(self.sec):
            raise Unsupported('symbolic time of day')
        return self.sec

    def replace(self, **kw):
        d, sec = self.d, self.sec
        if set(kw) <= {'hour', 'minute', 'second', 'microsecond'}:
            if not isq(sec):
                raise Unsupported('replace on symbolic time of day')
            h, m, s, us = sec // 3600, sec // 60 % 60, sec % 60 // 1, sec % 1
            h, m, s = kw.get('hour', h), kw.get('minute', m), kw.get('second', s)
            us = F(kw['microsecond'], 1000000) if 'microsecond' in kw else us
            h = num(h)
            if not h.const():
                if not h.isint():
                    raise Unsupported('fractional hour')
                if not ENG.known(z3.And(h.v >= 0, h.v <= 23)):
                    raise Unsupported('hour outside 0..23')
                return TS(d, core.RADD(core.RMUL(3600, h.v), m * 60 + s + us))
            if not 0 <= h.v <= 23:
                raise ValueError('hour must be in 0..23')
            return TS(d, int(h.v) * 3600 + m * 60 + s + us)
        if kw == dict(day=1, month=1):
            return TS(core.RSUB(core.RADD(d, 1), doy(d)), sec)
        raise Unsupported('Timestamp.replace(%s)' % ','.join(kw))

    def date(self):
        return DateOnly(self.d)

    def normalize(self):
        return TS(self.d, 0)

    floor = None

    def isoformat(self):
        return DayStr(self.d) if self.sec == 0 else Unsupported

    def strftime(self, f):
        if f == '%Y-%m-%d':
            return DayStr(self.d)
        raise Unsupported('strftime')

    @property
    def hour(self):
        s = self._csec()
        return int(s // 3600)

    @property
    def minute(self):
        return int(self._csec() // 60 % 60)

    @property
    def second(self):
        return int(self._csec() % 60 // 1)

    @property
    def month(self):
        return SF(month(self.d))

    @property
    def day(self):
        return SF(dom(self.d))

    @property
    def year(self):
        return SF(year(self.d))

    @property
    def dayofyear(self):
        return SF(doy(self.d))

    day_of_year = dayofyear

    def __sub__(self, o):
        if isinstance(o, TS):
            return Delta(core.RSUB(self.d, o.d), core.RSUB(self.sec, o.sec))
        if isinstance(o, Delta):
            return self + Delta(core.RNEG(o.d), core.RNEG(o.sec))
        raise Unsupported('Timestamp - ' + type(o).__name__)

    def __add__(self, o):
        if not isinstance(o, Delta):
            raise Unsupported('Timestamp + ' + type(o).__name__)
        sec = core.RADD(self.sec, o.sec)
        if isq(sec):
            return TS(core.RADD(core.RADD(self.d, o.d), int(sec // 86400)), sec % 86400)
        return TS(core.RADD(self.d, o.d), sec)

    __radd__ = __add__

    def _choose(self, c, o):
        return TS(core.RITE(c, self.d, o.d), core.RITE(c, self.sec, o.sec))

    def _abs(self):
        return SF(core.RADD(core.RMUL(86400, self.d), self.sec))

    def __eq__(self, o):
        return self._abs() == o._abs() if isinstance(o, TS) else False

    def __ne__(self, o):
        return self._abs() != o._abs() if isinstance(o, TS) else True

    def __lt__(self, o):
        return self._abs() < o._abs()

    def __le__(self, o):
        return self._abs() <= o._abs()

    def __gt__(self, o):
        return self._abs() > o._abs()

    def __ge__(self, o):
        return self._abs() >= o._abs()

    __hash__ = None


class DateOnly:
    def __init__(self, d):
        self.d = d

    def isoformat(self):
        return DayStr(self.d)

    def strftime(self, f):
        if f == '%Y-%m-%d':
            return DayStr(self.d)
        raise Unsupported('strftime')

    def __eq__(self, o):
        return mkbool(core.REQ(self.d, o.d)) if isinstance(o, DateOnly) else False

    def __ne__(self, o):
        return mkbool(NOT(core.REQ(self.d, o.d))) if isinstance(o, DateOnly) else True

    def _choose(self, c, o):
        return DateOnly(core.RITE(c, self.d, o.d))

    __hash__ = None


class DayStr:
    """'YYYY-MM-DD' of day d"""

    def __init__(self, d):
        self.d = d

    __hash__ = None
