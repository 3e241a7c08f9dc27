"""Shared vocabulary of the contracts: arbitrary symbolic inputs and common postconditions."""
import z3

from pyvc import axis, core, posframe, vec
from pyvc.axis import Axis, DaySet, register_days
from pyvc.core import AND, ENG, IFF, IMP, NAN, NOT, OR, SF, num, same_value
from pyvc.prove import item, raises, returns  # noqa: F401
from pyvc.vec import DIndex, Frame, Series


def days(name='D', contiguous=None):
    """an arbitrary non-empty, strictly increasing set of days (any length, any gaps)"""
    return register_days(DaySet(name, contiguous))


class _Superset(DaySet):
    def has(self, d):
        t = DaySet.has(self, d)
        if hasattr(self, 'inner'):
            ENG.fact(IMP(self.inner.has(d), t))
        return t


def superset(inner, name='M'):
    """an arbitrary set of days that contains all days of another one"""
    s = _Superset(name)
    s.inner = inner
    ENG.fact(s.first <= inner.first)
    ENG.fact(s.last >= inner.last)
    return register_days(s)


def day(name='d'):
    """an arbitrary day (not necessarily in any set)"""
    return z3.Int(ENG.name(name))


def daily_axis(d):
    return Axis(1, d)


def values(name, nan=True, lo=None, hi=None, K=1, integer=False):
    """arbitrary cell values: a function of the label, possibly missing"""
    V = z3.Function('val_' + name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    M = z3.Function('mis_' + name, z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def cell(d, s=0):
        v = V(core.zr(d), core.zr(s))
        if lo is not None:
            ENG.fact(v >= core.zreal(lo))
        if hi is not None:
            ENG.fact(v <= core.zreal(hi))
        return SF(v, M(core.zr(d), core.zr(s)) if nan else False)
    return cell


def series(ax, name, frozen=True, **kw):
    s = Series(ax, values(name, **kw), name=name)
    s.frozen = frozen
    return s


def frame(ax, names, frozen=True, **kw):
    cols = {}
    for n in names:
        o = dict(kw)
        nm = n
        if isinstance(n, tuple):
            nm, extra = n
            o.update(extra)
        cols[nm] = Series(ax, values(nm, **o), name=nm)
        cols[nm].frozen = frozen
    return Frame(ax, cols, frozen=frozen)


def stamps(name='t'):
    """arbitrary time stamps (whole seconds) by position"""
    D = z3.Function('day_' + name, z3.IntSort(), z3.IntSort())
    S = z3.Function('sec_' + name, z3.IntSort(), z3.IntSort())

    def ts(q):
        q = core.zr(q)
        ENG.fact(AND(S(q) >= 0, S(q) < 86400))
        return axis.TS(D(q), S(q))
    return ts


def table(n, names, frozen=True, ts=None, **kw):
    """a table of n rows with arbitrary time stamps and values"""
    cells = {}
    for c in names:
        v = values(c, **kw)
        cells[c] = (lambda v: lambda q: v(q))(v)
    return posframe.rows(axis.PosAxis(n), cells, ts or stamps(), frozen)


def hourly(D):
    """any hours of the days of D, at least one of each"""
    H = z3.Function('has_hour', z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def has(d, s):
        d = core.zr(d)
        if ('rows', d.get_id()) not in ENG.cache:
            ENG.cache[('rows', d.get_id())] = d
            ENG.fact(IMP(D.has(d), OR(*[H(d, h) for h in range(24)])))
        return AND(D.has(d), H(d, core.zr(s)))
    ax = Axis(24, None, has)
    ax.dayrange = (D.first, D.last)
    return ax


def eq(a, b):
    """the two values are equal, or both missing"""
    return same_value(num(a), num(b))


def isnan(a):
    return num(a).nan


def same_index(name, idx, K, dset):
    """idx covers exactly the K slots of each day of dset, each once, in order"""
    ax = idx.axis
    d = day('any')
    if ax.K != K:
        ENG.prove(name + ': time step', False)
        return
    for s in range(K):
        ENG.prove('%s: slot %d present exactly on the given days' % (name, s), IFF(ax.has(d, s), dset.has(d)))
        if ax.whole:
            break


def parameter(name):
    """an arbitrary finite number passed in by the caller"""
    c = ENG.fresh(name)
    ENG.hubs.add(c.decl().name())  # occurs everywhere: does not make facts about other days relevant
    return SF(c)


def means_in(t):
    """the means over a finite set of cells that occur in a term: (mean, [(valid, value)])"""
    names = core.syms(core.zb(t) if isinstance(t, bool) else t)
    return [x for k, x in ENG.cache.items() if isinstance(k, tuple) and k and k[0] == 'mean' and x[0].decl().name() in names]


def sun_stub(L, fn):
    """the sun times of an index and a location replaced by fn"""
    for q in ('melodist.util.util', 'melodist.util'):
        if L.patch(q + '.get_sun_times', fn) is not None:
            return
    raise core.Unsupported('get_sun_times not found')


def frozen_copy(v):
    """what a table contains now"""
    if isinstance(v, Frame):
        return Frame(v.axis, {c: Series(s.axis, s.snapshot(), c) for c, s in v.cols.items()})
    return v


def same_content(a, b):
    """the same object, equal numbers or tables with equal labels and values"""
    if a is b:
        return True
    if isinstance(a, Frame) and isinstance(b, Frame):
        if list(a.cols) != list(b.cols) or a.axis.K != b.axis.K:
            return False
        d = day('cell')
        r = []
        for s in a.axis.slots():
            r.append(IFF(a.axis.has(d, s), b.axis.has(d, s)))
            r += [IMP(a.axis.has(d, s), same_value(a.cols[c].at(d, s), b.cols[c].at(d, s))) for c in a.cols]
        return AND(*r)
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return same_value(x, y)
    return False


PUBLIC = ('data_daily', 'data_disagg', 'sun_times', 'lon', 'lat', 'timezone', 'statistics', 'id', 'name')


def seen(s):
    """what a user sees of a station"""
    r = {k: frozen_copy(getattr(s, k)) for k in PUBLIC}
    r.update({'statistics.' + k: v for k, v in vars(s.statistics).items()})
    return r
