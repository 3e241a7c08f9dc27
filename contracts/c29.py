"""C29: seasonal subsets and the seasonal cascade treat each day exactly once."""
from contracts.util import *
from contracts.util import parameter, sun_stub  # noqa: F401
from pyvc.axis import month
from pyvc.core import F, REQ, mkbool

PREC = 'melodist.precipitation.'


def months(n):
    """n arbitrary different months"""
    ms = [ENG.fresh('month', 'I') for _ in range(n)]
    for i, m in enumerate(ms):
        ENG.assume(AND(m >= 1, m <= 12, *[m != o for o in ms[:i]]))
    return ms


def subset(n, kind):
    K = 24 if kind == 'hourly' else 1

    @item('seasonal_subset, %s months, %s' % (n, kind), [PREC + 'seasonal_subset'])
    def f(L):
        m = L.package()
        D = days()
        x = frame(Axis(K, D), ['a', 'b']) if kind == 'daily table' else series(Axis(K, D), 'a')
        if n == 'all':
            out = returns(lambda: m.seasonal_subset(x))
            sel = lambda d: True
        else:
            ms = months(n)
            out = returns(lambda: m.seasonal_subset(x, months=[SF(t) for t in ms]))
            sel = lambda d: OR(*[month(d) == t for t in ms])
        d = day('cell')
        ENG.prove('time step', out.axis.K == K)
        ENG.prove('columns', not isinstance(x, Frame) or list(out.columns) == ['a', 'b'])
        for s in range(K):
            ENG.prove('exactly the selected months', IFF(out.axis.has(d, s), AND(D.has(d), sel(d))))
            for u, v in ([(out[c], x[c]) for c in x.columns] if isinstance(x, Frame) else [(out, x)]):
                ENG.prove('values', IMP(AND(D.has(d), sel(d)), eq(u.at(d, s), v.at(d, s))))
        ENG.prove('inputs unchanged', not ENG.frame_log)


for n in list(range(1, 13)) + ['all']:
    subset(n, 'daily')
for n in (1, 2, 3):
    subset(n, 'hourly')
    subset(n, 'daily table')


def seasonal(k):
    @item('Station.disaggregate_precipitation, cascade with %d seasons' % k, ['melodist.station.Station.disaggregate_precipitation'], maxpaths=2000)
    def f(L):
        m = L.package()
        D = days('D', contiguous=True)
        df = frame(Axis(1, D), [('precip', dict(lo=0)), 'hum'])
        df.__dict__['_ix'] = DIndex(df.axis, 'D')
        s = m.Station()
        s.data_daily = df
        season = z3.Function('season', z3.IntSort(), z3.IntSort())  # season of a month; -1: none
        calls, parts = [], []

        def part(x, months='all'):
            """the entries whose month belongs to the season (first part)"""
            if x.axis.K != 1 or not isinstance(months, Season):
                raise core.Unsupported('seasonal_subset called otherwise')
            r = x[Series(x.axis, lambda d, h: mkbool(season(core.zr(month(d))) == months.i))]
            r.__dict__['season'] = months.i
            parts.append(r.axis)
            return r

        def cascade(x, *a, **kw):
            """C02: non-negative hours that sum to the day's total; at least two days"""
            if a or kw.pop('method', None) != 'cascade' or kw.pop('shift', 0) != 0:
                raise core.Unsupported('disagg_prec called otherwise')
            calls.append((x.season, kw.get('cascade_options')))
            ENG.prove('at least two days', x.axis.days.n >= 2)
            rd = x.snapshot()
            v = [ENG.func('hour', 'I', 'R') for _ in range(24)]

            def cell(d, h):
                t = num(rd(d, 0))
                dd = core.zr(d)
                key = ('casc', v[0].name(), dd.get_id())
                if key not in ENG.cache:
                    ENG.cache[key] = dd
                    ENG.fact(IMP(AND(x.axis.has(d, 0), NOT(t.nan)), AND(sum((g(dd) for g in v[1:]), v[0](dd)) == core.zreal(t.v), *[g(dd) >= 0 for g in v])))
                return SF(v[h](dd), t.nan)
            return Series(Axis(24, x.axis.days), cell)

        for q, g in (('seasonal_subset', part), ('disagg_prec', cascade)):
            if L.patch(PREC + q, g) is None:
                raise core.Unsupported(q + ' not found')
        s.statistics.precip.months = [Season(i) for i in range(k)]
        s.statistics.precip.stats = stats = [Opaque() for i in range(k)]
        returns(lambda: s.disaggregate_precipitation(method='cascade'))
        out = s.data_disagg.precip
        same_index('result table', s.data_disagg.index, 24, D)
        for i, st in calls:
            ENG.prove('statistics of season %d' % i, st is stats[i])
        d, e = day('cell'), day('other')
        t = df.precip.at(d, 0)
        for a in parts:  # ties both days to the number of days of each season
            a.has(d, 0), a.has(e, 0)
        for i in range(k):
            # a day of season i, and another day of the same season
            two = AND(D.has(d), D.has(e), d != e, season(month(d)) == i, season(month(e)) == i)
            ENG.prove('season %d disaggregated' % i, IMP(two, i in [c[0] for c in calls]))
            if i in [c[0] for c in calls]:
                hours = [out.at(d, h) for h in range(24)]
                ENG.prove('season %d: sum of the day' % i, IMP(AND(two, NOT(t.nan)), REQ(sum_of(hours), t.v)))
                for h in hours:
                    ENG.prove('season %d: hour present' % i, IMP(AND(two, NOT(t.nan)), AND(NOT(h.nan), core.RLE(0, h.v))))
                    ENG.prove('season %d: missing day' % i, IMP(AND(two, t.nan), h.nan))


def sum_of(xs):
    r = 0
    for x in xs:
        r = core.RADD(r, x.v)
    return r


class Season:
    def __init__(self, i):
        self.i = i


class Opaque:
    """some statistics"""


for k in (1, 2, 4):
    seasonal(k)
