"""The pandas / scipy operations the code uses, as contracts over symbolic values."""
import io
import json
from fractions import Fraction as F

import z3

from . import core, rt, tables, vec
from .axis import Axis, DateOnly, DayStr, Delta, PosAxis, PredDays, RangeDays, TS, canonical, same_axis
from .carr import CArr, mk
from .core import AND, ENG, IMP, NAN, NOT, OR, SBool, SF, Unsupported, asbool, choose, isq, mkbool, num, zr
from .npshim import Shim
from .vec import DIndex, Frame, NDArr, Series, Vec, label_reader, relabel, trust


class Empty:
    """pd.Series(dtype=float): no entries"""
    kind = 'empty'

    def _len(self):
        return 0


class SMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Series, Empty, tables.MonthSeries, tables.Stacked)) or getattr(x, '_is_series', False)

    def __call__(cls, data=None, index=None, dtype=None, name=None):
        return make_series(data, index)


class SeriesC(metaclass=SMeta):
    pass


def make_series(data=None, index=None):
    trust('Series constructor')
    if index is None:
        if data is None:
            return Empty()
        if isinstance(data, Series):
            return Series(data.axis, data.snapshot())
        if isinstance(data, Vec):
            return Series(data.axis, data.snapshot())
        if hasattr(data, '_make_series'):
            return data._make_series()
        raise Unsupported('Series without index')
    if hasattr(index, '_series_on'):
        return index._series_on(data)
    if not isinstance(index, DIndex):
        raise Unsupported('Series index ' + type(index).__name__)
    ax = index.axis
    if data is None:
        cell = lambda *l: NAN
    elif isinstance(data, Series):
        cell = label_reader(data, ax)
    elif isinstance(data, Vec):
        cell = relabel(data, ax)
    elif isinstance(data, rt.LazyVec):
        cell = relabel(NDArr(data.axis, data.cell), ax)
    elif num(data) is not None:
        cell = lambda *l: data
    else:
        raise Unsupported('Series data ' + type(data).__name__)
    s = Series(ax, cell)
    if index.frozen:
        s.__dict__['_index'] = index
    return s


class FMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (Frame, tables.Course)) or getattr(x, '_is_frame', False)

    def __call__(cls, data=None, index=None, columns=None, dtype=None):
        return make_frame(data, index, columns)


class FrameC(metaclass=FMeta):
    pass


class Tab:
    """DataFrame with concrete integer labels (monthly parameter tables)"""
    _is_frame = True

    def __init__(self, labels, cols):
        object.__setattr__(self, 'labels', labels)
        object.__setattr__(self, 'cols', cols)

    def __getattr__(self, k):
        cols = self.__dict__.get('cols', {})
        if k in cols:
            return TabCol(self, k)
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k in self.cols and num(v) is not None:
            for l in self.labels:
                self.cols[k][l] = v
            return
        raise Unsupported('table attribute ' + k)

    @property
    def loc(self):
        return self

    def __setitem__(self, k, v):
        k = int(k)
        for c, x in zip(self.cols, v):
            self.cols[c][k] = x


class TabCol:
    _is_series = True

    def __init__(self, tab, c):
        self.tab, self.c = tab, c

    @property
    def loc(self):
        return self

    def __getitem__(self, k):
        if isinstance(k, Vec):
            rd = k.snapshot()
            vals = self.tab.cols[self.c]

            def cell(*l):
                m = num(rd(*l)).v
                r = None
                for i, v in vals.items():
                    r = v if r is None else choose(core.REQ(m, i), v, r)
                return r
            return Series(k.axis, cell)
        return self.tab.cols[self.c][int(k)]


def make_frame(data=None, index=None, columns=None):
    trust('DataFrame constructor')
    if data is None and index is None:
        return Frame(None, {}) if not columns else NoRows(columns)
    if isinstance(index, CArr) and data is None:
        labels = [int(num(x).v) for x in index.a.flat]
        return Tab(labels, {c: {l: NAN for l in labels} for c in columns})
    if hasattr(index, '_frame_on'):
        return index._frame_on(data, columns)
    if isinstance(data, Frame):
        raise Unsupported('DataFrame(DataFrame)')
    from . import files, posframe
    if isinstance(index, posframe.PosIndex) and isinstance(data, dict):
        return files.table(data, index, columns)
    if hasattr(index, 'vector') or any(hasattr(v, 'vector') for v in (data or {}).values()):
        from . import posframe
        return posframe.make(data, index)
    if index is None:
        vs = list(data.values())
        if not all(isinstance(v, Series) for v in vs):
            raise Unsupported('DataFrame data')
        ax = vec.union_axis([v.axis for v in vs]) if not all(same_axis(vs[0].axis, v.axis) for v in vs) else vs[0].axis
        f = Frame(ax, {c: Series(ax, label_reader(v, ax), c) for c, v in data.items()})
        return f
    if not isinstance(index, DIndex):
        raise Unsupported('DataFrame index ' + type(index).__name__)
    f = Frame(index.axis, {})
    for c in columns or []:
        f[c] = NAN
    for c, v in (data or {}).items():
        if isinstance(v, rt.LazyVec):
            v = NDArr(v.axis, v.cell)
        f[c] = v
    if index.frozen:
        object.__setattr__(f, '_ix', index)
    return f


class NoRows:
    """DataFrame(columns=...): no rows"""
    _is_frame = True

    def __init__(self, columns):
        self.columns = list(columns)

    def _len(self):
        return 0

    def __getattr__(self, k):
        raise AttributeError(k) if k.startswith('__') else Unsupported('%s of a table without rows' % k)


class DIMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, DIndex) or getattr(x, '_is_dtindex', False)

    def __call__(cls, data=None, **kw):
        from . import files, posframe
        if isinstance(data, files.Stamps) and set(kw) <= {'name'}:
            return posframe.PosIndex(data.axis, data.ts)
        if kw:
            raise Unsupported('DatetimeIndex arguments')
        if isinstance(data, DIndex):
            return DIndex(data.axis, data._freq)
        if isinstance(data, rt.LazyVec):
            return index_of(data)
        raise Unsupported('DatetimeIndex(%s)' % type(data).__name__)


class DatetimeIndexC(metaclass=DIMeta):
    pass


def index_of(lv):
    """index from timestamps computed per label: the day kept, one fixed hour"""
    a = lv.axis
    d = z3.Int('?probe')
    ts = [lv.cell(d, s) for s in a.slots()]
    if a.K != 1 or not all(isinstance(t, TS) and core.REQ(t.d, d) is True and isq(t.sec) for t in ts):
        raise Unsupported('timestamps of a derived index')
    sec = ts[0].sec
    if sec == 0:
        return DIndex(a)
    if sec % 3600:
        raise Unsupported('derived index not on full hours')
    h = int(sec // 3600)
    ax = Axis(24, None, lambda x, s: a.has(x, 0) if s == h else False)
    ax.oneslot = (h, a.days)
    return DIndex(ax)


class MIMeta(type):
    def __instancecheck__(cls, x):
        return False


class MultiIndexC(metaclass=MIMeta):
    pass


def Timedelta(value=None, unit=None, **kw):
    d, s = 0, 0
    for k, v in kw.items():
        v = num(v).v
        if k == 'days':
            d = core.RADD(d, v)
        elif k in ('hours', 'minutes', 'seconds'):
            s = core.RADD(s, core.RMUL({'hours': 3600, 'minutes': 60, 'seconds': 1}[k], v))
        else:
            raise Unsupported('Timedelta')
    if isinstance(value, str):
        import re
        m = re.fullmatch(r'\s*(\d+)\s*(D|days?|h|hours?|min)\s*', value)
        if not m:
            raise Unsupported('Timedelta string')
        n = int(m.group(1))
        u = m.group(2)[0]
        if u in 'Dd':
            d = core.RADD(d, n)
        else:
            s = core.RADD(s, n * (3600 if u == 'h' else 60))
    elif value is not None:
        if unit in ('D', 'd', 'days'):
            d = core.RADD(d, num(value).v)
        elif unit in ('h', 'hours'):
            s = core.RADD(s, core.RMUL(3600, num(value).v))
        else:
            raise Unsupported('Timedelta unit')
    return Delta(d, s)


class TSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, TS)

    def __call__(cls, x, **kw):
        if isinstance(x, TS):
            return x
        if isinstance(x, DateOnly):
            return TS(x.d, 0)
        raise Unsupported('Timestamp()')


class TimestampC(metaclass=TSMeta):
    pass


def disjoint(a, b):
    if a.K != b.K:
        return False
    d = z3.Int(ENG.name('dj'))
    return all(ENG.known(NOT(AND(a.has(d, s), b.has(d, s)))) for s in a.slots())


def concat(objs, axis=0, **kw):
    trust('concat')
    objs = list(objs)
    if objs and not kw and axis == 0 and all(hasattr(type(o), '_rows_of') for o in objs):
        return objs[0]._rows_of(objs)
    objs = [o for o in objs if not isinstance(o, Empty)]
    if axis != 0 or kw:
        raise Unsupported('concat arguments')
    if not objs:
        return Empty()
    if len(objs) == 1:
        return objs[0].copy()
    ps = []
    for o in objs:
        ps += o.pieces if isinstance(o, Pieces) else [o.copy()]
    return Pieces(ps)


class Pieces:
    """objects one after another: labels are in time order within each of them only"""

    def __init__(self, pieces):
        self.pieces = pieces
        self._is_frame = isinstance(pieces[0], Frame)
        self._is_series = not self._is_frame

    def sort_index(self):
        trust('sort_index')
        r = self.pieces[0]
        for o in self.pieces[1:]:
            r = concat2(r, o)
        return r

    def reindex(self, *a, **kw):
        return self.sort_index().reindex(*a, **kw)

    def __getattr__(self, k):
        raise Unsupported('%s of concatenated objects' % k)


def finer(v, K):
    """the same labels as slots of a finer axis"""
    if v.axis.K == K:
        return v
    if isinstance(v, Frame):
        raise Unsupported('concat of frames of different resolutions')
    a, m, rd = v.axis, K // v.axis.K, v.snapshot()
    return Series(Axis(K, None, lambda d, s: a.has(d, s // m) if s % m == 0 else False), lambda d, s: rd(d, s // m) if s % m == 0 else NAN)


def concat2(a, b):
    if a.axis.K != b.axis.K:
        K = max(a.axis.K, b.axis.K)
        if K % a.axis.K or K % b.axis.K:
            raise Unsupported('concat of different resolutions')
        a, b = finer(a, K), finer(b, K)
    if not disjoint(a.axis, b.axis):
        raise Unsupported('concat of possibly overlapping axes')
    if a.axis.whole and b.axis.whole:
        x, y = a.axis.days, b.axis.days
        ax = Axis(a.axis.K, PredDays(lambda d: OR(x.has(d), y.has(d)), 'concat'))
    else:
        aa, bb = a.axis, b.axis
        ax = Axis(a.axis.K, None, lambda d, s: OR(aa.has(d, s), bb.has(d, s)))
        ra, rb = getattr(aa, 'dayrange', None), getattr(bb, 'dayrange', None)

    def merge(u, v):
        ru, rv, ua = u.snapshot(), v.snapshot(), u.axis
        return Series(ax, lambda d, s: choose(ua.has(d, s), ru(d, s), rv(d, s)))
    if isinstance(a, Frame):
        if list(a.cols) != list(b.cols):
            raise Unsupported('concat of frames with different columns')
        return Frame(ax, {c: merge(a.cols[c], b.cols[c]) for c in a.cols})
    return merge(a, b)


def to_datetime(x, **kw):
    from . import files
    if isinstance(x, files.DateTexts):
        return files.parse(x, kw)
    if kw:
        raise Unsupported('to_datetime arguments')
    if isinstance(x, DIndex):
        return x
    raise Unsupported('to_datetime')


def isnull(x):
    if isinstance(x, Vec):
        return x.isnull()
    n = num(x)
    if n is None:
        return x is None
    return mkbool(n.nan)


def unsupported(name):
    def f(*a, **k):
        raise Unsupported(name)
    return f


def modules():
    pd = Shim('pandas')
    pd.Series, pd.DataFrame, pd.DatetimeIndex, pd.MultiIndex = SeriesC, FrameC, DatetimeIndexC, MultiIndexC
    pd.Timestamp, pd.Timedelta = TimestampC, Timedelta
    pd.date_range, pd.concat, pd.to_datetime = vec.date_range, concat, to_datetime
    pd.isnull = pd.isna = isnull
    pd.notnull = pd.notna = lambda x: ~isnull(x) if isinstance(x, Vec) else mkbool(NOT(asbool(isnull(x))))
    pd.NaT = None
    from . import files
    pd.read_csv, pd.to_timedelta = files.read_csv, files.to_timedelta
    sp = Shim('scipy')
    st, op = Shim('scipy.stats'), Shim('scipy.optimize')
    sp.stats, sp.optimize = st, op
    st.linregress = unsupported('scipy.stats.linregress')
    op.curve_fit = unsupported('scipy.optimize.curve_fit')
    op.minimize = unsupported('scipy.optimize.minimize')
    return {'pandas': pd, 'scipy': sp, 'scipy.stats': st, 'scipy.optimize': op, '__open__': unsupported('open')}
