"""Tables read from files: what the readers of the library return for a file of a given content is
the contract of the file (a `File` object made by the contract), everything after it is executed."""
import z3

from . import core, vec
from .axis import PosAxis, TS
from .core import ENG, SF, Unsupported, num
from .posframe import PosIndex, rows
from .vec import Frame, Series, trust


class File:
    """a file name; `read(**arguments)` returns what the library reads from the file"""

    def __init__(self, read):
        self.read = read


def read_csv(f, **kw):
    trust('read_csv')
    if not isinstance(f, File):
        raise Unsupported('read_csv of an unknown file')
    return f.read(**kw)


class Records(Frame):
    """rows of a file, labelled by position until an index is set"""

    def __getitem__(self, k):
        if isinstance(k, str) and k in self.cols:
            s = self.cols[k]
            return s if isinstance(s, DateCodes) else Series(s.axis, s.snapshot(), k)
        if isinstance(k, str):
            raise KeyError(k)
        raise Unsupported('records[%s]' % type(k).__name__)

    def __setattr__(self, k, v):
        if k == 'index' and isinstance(v, PosIndex):
            # series taken before carry the old labels: another axis
            old = self.axis
            if not ENG.known(core.REQ(v.axis.n, old.n)):
                raise Unsupported('index of another length')
            ax = PosAxis(old.n)
            for c, s in list(self.cols.items()):
                self.cols[c] = s.on(ax) if isinstance(s, DateCodes) else Series(ax, s.snapshot(), c)
            object.__setattr__(self, 'axis', ax)
            object.__setattr__(self, '_ix', PosIndex(ax, v.ts))
            return
        Frame.__setattr__(self, k, v)


class DateCodes:
    """a column of dates written as integers yyyymmdd"""

    def __init__(self, axis, day):
        self.axis, self.day = axis, day

    def on(self, axis):
        return DateCodes(axis, self.day)

    def astype(self, t):
        if t != 'str' and getattr(t, '__name__', '') not in ('str', 'str_'):
            raise Unsupported('dates as %s' % (t,))
        return DateTexts(self.axis, self.day)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s of a column of dates' % k)


class DateTexts(DateCodes):
    pass


def parse(x, kw):
    """to_datetime of dates written yyyymmdd"""
    trust('to_datetime')
    if kw != {'format': '%Y%m%d'}:
        raise Unsupported('to_datetime arguments')
    return Stamps(x.axis, lambda q: TS(x.day(q), 0))


class Stamps:
    """a series of time stamps (whole seconds)"""
    _is_series = True

    def __init__(self, axis, ts):
        self.axis, self.ts = axis, ts

    def _shift(self, o, sign):
        if not isinstance(o, Spans) or o.axis is not self.axis:
            raise Unsupported('time stamps + %s' % type(o).__name__)

        def ts(q):
            t = self.ts(q)
            s = core.RADD(t.sec, core.RMUL(sign, o.sec(q)))
            s = core.zr(s)
            return TS(core.RADD(t.d, s / 86400), s % 86400)
        return Stamps(self.axis, ts)

    def __add__(self, o):
        return self._shift(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._shift(o, -1)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s of time stamps' % k)


class Spans:
    """a series of durations in seconds"""
    _is_series = True

    def __init__(self, axis, sec):
        self.axis, self.sec = axis, sec

    def __add__(self, o):
        return o + self if isinstance(o, Stamps) else NotImplemented

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('%s of durations' % k)


def to_timedelta(x, unit=None):
    trust('to_timedelta')
    f = {'h': 3600, 'hour': 3600, 'hours': 3600, 'm': 60, 'min': 60, 'minutes': 60, 's': 1, 'D': 86400, 'd': 86400}.get(unit)
    if f is None or not isinstance(x, Series):
        raise Unsupported('to_timedelta')
    rd = x.snapshot()

    def sec(q):
        v = num(rd(q))
        z = v.v
        if z3.is_expr(z) and not z.is_int():
            if z.decl().kind() == z3.Z3_OP_TO_REAL:
                z = z.arg(0)
            else:
                raise Unsupported('durations that are not whole numbers')
        return core.RMUL(f, z)
    return Spans(x.axis, sec)


def table(data, index, columns):
    """DataFrame(index=, columns=, data=) of series with that index"""
    trust('DataFrame constructor')
    cells = {}
    for c in columns if columns is not None else data:
        if c not in data:
            cells[c] = lambda q: core.NAN
            continue
        v = data[c]
        if not isinstance(v, Series) or v.axis is not index.axis:
            raise Unsupported('columns with labels of their own')
        cells[c] = v.snapshot()
    return rows(index.axis, cells, index.ts)
