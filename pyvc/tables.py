"""Tables indexed by month (and hour): parameter tables, mean courses, monthly aggregates."""
import operator
from fractions import Fraction as F

import z3

from . import core, rt, vec
from .axis import MONTH, month
from .core import AND, ENG, IMP, NAN, NOT, OR, SBool, SF, Unsupported, asbool, choose, isq, mkbool, num, same_value, zr
from .vec import NDArr, Series, Vec, trust


class KeyedValues:
    """values looked up by a vector of keys; the labels are the keys themselves"""
    pass


class MonthSeries:
    """Series indexed by month number; fn(month term, label) -> value"""
    kind = 'months'
    frozen = None

    def __init__(self, fn, has=None, frozen=None):
        self.fn = fn
        self.hasm = has
        self.frozen = frozen

    def _check(self, key):
        if self.hasm is None:
            return
        ax = key.axis
        d = z3.Int(ENG.name('key'))
        ok = AND(*[IMP(ax.has(d, s), self.hasm(num(key.at(d, s)).v)) for s in ax.slots()])
        if not ENG.known(ok):
            raise Unsupported('month may be absent from the table')

    def _at(self, key):
        self._check(key)
        rd = key.snapshot()
        return Series(key.axis, lambda *l: self.fn(num(rd(*l)).v, l))

    def __getitem__(self, k):
        if isinstance(k, Vec):
            return self._at(k)
        n = num(k)
        if n is not None:
            return self.fn(n.v, None)
        raise Unsupported('table[%s]' % type(k).__name__)

    @property
    def loc(self):
        return self

    def __setitem__(self, k, v):
        if self.frozen:
            ENG.frame_log.append((self.frozen, 'table written'))
        raise Unsupported('table assignment')

    def get(self, k, default=None):
        raise Unsupported('table.get')

    def reindex(self, k):
        return self._at(k)

    def copy(self):
        return MonthSeries(self.fn, self.hasm)

    def _bin(self, op, o):
        if isinstance(o, MonthSeries) and self.hasm is None and o.hasm is None:
            return MonthSeries(lambda m, l: op(num(self.fn(m, l)), num(o.fn(m, l))))
        if num(o) is None:
            raise Unsupported('table arithmetic')
        return MonthSeries(lambda m, l: op(num(self.fn(m, l)), o), self.hasm)

    def _rbin(self, op, o):
        if num(o) is None:
            raise Unsupported('table arithmetic')
        return MonthSeries(lambda m, l: op(o, num(self.fn(m, l))), self.hasm)

    def __mul__(self, o):
        return self._bin(operator.mul, o)

    def __rmul__(self, o):
        return self._rbin(operator.mul, o)

    def __add__(self, o):
        return self._bin(operator.add, o)

    def __radd__(self, o):
        return self._rbin(operator.add, o)

    def __sub__(self, o):
        return self._bin(operator.sub, o)

    def __neg__(self):
        return MonthSeries(lambda m, l: -num(self.fn(m, l)), self.hasm)

    def __truediv__(self, o):
        return self._bin(operator.truediv, o)

    def _ew(self, f):
        return MonthSeries(lambda m, l: f(num(self.fn(m, l))), self.hasm)

    def _lift_other(self):
        pass

    def isnull(self):
        raise Unsupported('table.isnull')

    __hash__ = None


class Labels:
    """the columns or rows of a table; only the name may be set"""

    def __init__(self, levels=1):
        self.levels = levels
        self.name = None

    def droplevel(self, level=0):
        if level != 0 or self.levels != 2:
            raise Unsupported('droplevel')
        return Labels(1)


class Course:
    """DataFrame with months as columns and hours 0..23 as rows; fn(month term, hour) -> value"""
    kind = 'course'
    frozen = None

    def __init__(self, fn, frozen=None, levels=1):
        self.fn = fn
        self.frozen = frozen
        self._columns = Labels(levels)
        self.index = Labels()

    @property
    def columns(self):
        return self._columns

    @columns.setter
    def columns(self, c):
        if not isinstance(c, Labels):
            raise Unsupported('columns of a table')
        self._columns = c

    def _lift_other(self):
        pass

    def unstack(self):
        trust('DataFrame.unstack: entry (month, hour) of the table')
        return Stacked(lambda m, h: self.fn(m, h), order=('month', 'hour'))

    def stack(self):
        return Stacked(lambda m, h: self.fn(m, h), order=('hour', 'month'))

    def _col(self, how):
        fn = self.fn

        def g(m, l):
            return vec.agg_cells([(True, fn(m, h)) for h in range(24)], how)
        memo = {}

        def f(m, l=None):
            k = m.get_id() if z3.is_expr(m) else m
            if k not in memo:
                memo[k] = (g(m, l), m)
            return memo[k][0]
        return MonthSeries(f)

    def mean(self):
        trust('DataFrame.mean: mean over the hours of each month')
        return self._col('mean')

    def min(self):
        return self._col('min')

    def max(self):
        return self._col('max')

    def sum(self):
        return self._col('sum')

    def _bin(self, op, o, swap=False):
        if isinstance(o, MonthSeries):
            g = lambda m, h: o.fn(m, None)
        elif isinstance(o, Course):
            g = o.fn
        elif num(o) is not None:
            g = lambda m, h: o
        else:
            raise Unsupported('course arithmetic')
        fn = self.fn
        if swap:
            return Course(lambda m, h: op(num(g(m, h)), num(fn(m, h))), levels=self.columns.levels)
        return Course(lambda m, h: op(num(fn(m, h)), num(g(m, h))), levels=self.columns.levels)

    def __sub__(self, o):
        return self._bin(operator.sub, o)

    def __rsub__(self, o):
        return self._bin(operator.sub, o, True)

    def __add__(self, o):
        return self._bin(operator.add, o)

    __radd__ = __add__

    def __mul__(self, o):
        return self._bin(operator.mul, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(operator.truediv, o)

    def sub(self, o, axis=1):
        return self - o

    def copy(self):
        return Course(self.fn, levels=self.columns.levels)

    def __getitem__(self, k):
        n = num(k)
        if n is None:
            raise Unsupported('course[%s]' % type(k).__name__)
        raise Unsupported('course column')

    def __setitem__(self, k, v):
        if self.frozen:
            ENG.frame_log.append((self.frozen, 'table written'))
        raise Unsupported('course assignment')

    __hash__ = None


class Stacked:
    """Series with a (month, hour[, wet]) MultiIndex"""
    frozen = None

    def __init__(self, fn, order, frozen=None):
        self.fn, self.order, self.frozen = fn, order, frozen

    @property
    def loc(self):
        return self

    def __getitem__(self, z):
        if not isinstance(z, rt.Zip) or len(z.vs) != len(self.order):
            raise Unsupported('MultiIndex lookup')
        vs = []
        for v in z.vs:
            if isinstance(v, rt.LazyVec):
                v = NDArr(v.axis, v.cell)
            vs.append(v)
        ax = vs[0].axis
        rds = [vec.relabel(v, ax) if v.kind != 'series' else v.snapshot() for v in vs]
        for v in vs[1:]:
            if not vec.same_axis(v.axis, ax):
                raise Unsupported('MultiIndex lookup with vectors of different axes')
        names = self.order

        def cell(*l):
            kv = {}
            for n, r in zip(names, rds):
                x = r(*l)
                if n == 'wet':
                    kv[n] = asbool(x)
                else:
                    kv[n] = num(x).v
            h = kv['hour']
            if not isq(h):
                raise Unsupported('symbolic hour key')
            if not (0 <= h <= 23):
                raise KeyError(h)
            if 'wet' in kv:
                return self.fn(kv['month'], int(h), kv['wet'])
            return self.fn(kv['month'], int(h))
        # the key of every label is resolved when the lookup happens (KeyError)
        d = z3.Int('?probe')
        for s in ax.slots():
            cell(d, s)
        r = Series(ax, cell)
        return r

    def reindex(self, z):
        return self[z]

    def copy(self):
        return Stacked(self.fn, self.order)

    def __setitem__(self, k, v):
        if self.frozen:
            ENG.frame_log.append((self.frozen, 'table written'))
        raise Unsupported('table assignment')

    __hash__ = None


class Agg:
    """aggregate of a daily series over the days of each month (uninterpreted, extensional)"""

    def __init__(self, v, how):
        self.axis, self.rd, self.how = v.axis, v.snapshot(), how
        self.f = ENG.func('agg_' + how, 'I', 'R')
        self.nan = ENG.func('aggnan_' + how, 'I', 'B')

    def same(self, o):
        if self.how != o.how or not vec.same_axis(self.axis, o.axis):
            return False
        d = z3.Int(ENG.name('aggday'))
        goal = IMP(self.axis.has(d, 0), same_value(self.rd(d, 0), o.rd(d, 0)))
        return ENG.prove('two monthly aggregates range over the same values', goal, quiet=True)

    def value(self, m, label):
        mz = zr(m)
        v = self.f(mz)
        n = self.nan(mz)
        if label is not None:
            d = label[0]
            x = num(self.rd(d, 0))
            ENG.fact(IMP(AND(self.axis.has(d, 0), core.REQ(m, month(d)), NOT(x.nan)), NOT(n)))
        return SF(v, n)


def monthly(v, how):
    trust('groupby(month).%s: aggregate over exactly the days of each month' % how)
    a = Agg(v, how)
    reg = ENG.cache.setdefault('aggs', [])
    for o in reg:
        if a.same(o):
            a = o
            break
    else:
        reg.append(a)
    return MonthSeries(lambda m, l: a.value(m, l))


class KeyedAgg:
    """aggregate of a series over the labels with the same keys (uninterpreted, extensional); a Series with a MultiIndex"""

    def __init__(self, v, keys, how):
        trust('groupby([keys]).%s: aggregate over exactly the labels with these keys, missing values left out' % how)
        self.axis, self.rd, self.how = v.axis, v.snapshot(), how
        self.keys = [vec.relabel(k, v.axis) if k.kind != 'series' else k.snapshot() for k in keys]
        d = z3.Int('?probe')
        probe = [[k(d, s) for s in v.axis.slots()] for k in self.keys]
        self.sorts = ['B' if all(isinstance(x, (bool, SBool)) for x in p) else 'I' for p in probe]
        for p, so in zip(probe, self.sorts):
            if so == 'I' and not all(num(x) is not None and num(x).plain for x in p):
                raise Unsupported('groupby keys')
        self.hours = [so == 'I' and v.axis.K == 24 and all(isq(num(x).v) and num(x).v == i for i, x in enumerate(p)) for p, so in zip(probe, self.sorts)]
        self.f = ENG.func('agg_' + how, *self.sorts, 'R')
        self.nan = ENG.func('aggnan_' + how, *self.sorts, 'B')
        reg = ENG.cache.setdefault('kaggs', [])
        for o in reg:
            if self.same(o):
                self.f, self.nan = o.f, o.nan
                break
        else:
            reg.append(self)

    def key(self, i, d, s):
        x = self.keys[i](d, s)
        return asbool(x) if self.sorts[i] == 'B' else num(x).v

    def same(self, o):
        """do two aggregates range over the same labels, keys and values"""
        if self.how != o.how or self.sorts != o.sorts or self.axis.K != o.axis.K:
            return False
        d = z3.Int(ENG.name('aggday'))
        goal = []
        for s in self.axis.slots():
            a, b = self.axis.has(d, s), o.axis.has(d, s)
            x, y = num(self.rd(d, s)), num(o.rd(d, s))
            eqs = [core.IFF(self.key(i, d, s), o.key(i, d, s)) if so == 'B' else core.REQ(self.key(i, d, s), o.key(i, d, s)) for i, so in enumerate(self.sorts)]
            # a missing value does not take part
            goal.append(AND(core.IFF(AND(a, NOT(x.nan)), AND(b, NOT(y.nan))), IMP(AND(a, NOT(x.nan)), AND(same_value(x, y), *eqs))))
        return ENG.prove('two aggregates range over the same labels, keys and values', AND(*goal), quiet=True)

    def value(self, *ks):
        zs = [core.zb(k) if so == 'B' else zr(k) for k, so in zip(ks, self.sorts)]
        return SF(self.f(*zs), self.nan(*zs))

    def _table(self, col, row, levels):
        if len(self.keys) != 2 or {col, row} != {0, 1} or not self.hours[row]:
            raise Unsupported('table of an aggregate')
        return Course(lambda m, h: self.value(*((m, h) if col == 0 else (h, m))), levels=levels)

    def unstack(self, level=-1):
        if level not in (0, 1, -1):
            raise Unsupported('unstack')
        col = level % 2
        return self._table(col, 1 - col, 1)

    def reset_index(self):
        return LongTable(self)

    def copy(self):
        return self

    __hash__ = None


class LongTable:
    """a grouped aggregate with its keys as columns level_0, level_1"""

    def __init__(self, agg):
        self.agg = agg

    def pivot(self, columns=None, index=None, values=None):
        lev = {'level_%d' % i: i for i in range(len(self.agg.keys))}
        if columns not in lev or index not in lev or values is not None:
            raise Unsupported('pivot')
        trust('DataFrame.pivot: entry (row key, column key) is the value of these keys, missing if there is none')
        return self.agg._table(lev[columns], lev[index], 2)
