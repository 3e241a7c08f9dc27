"""C21: a station keeps location, statistics, data and results consistent.

Every state that assignments can produce is described by its visible content (location, statistics, daily data, results).  For
each operation on an arbitrary such state the invariants hold afterwards and the new state is again of the described form."""
import itertools

from contracts.util import *
from contracts.util import PUBLIC, frozen_copy, parameter, same_content, sun_stub
from pyvc.axis import RangeDays, TS
from pyvc.core import F, REQ

COLS = ['temp', 'precip', 'glob', 'hum', 'wind']
ST = 'melodist.station.Station.'
SETTERS = [ST + x for x in ('__init__', 'data_daily', 'lon', 'lat', 'timezone', 'statistics', '_update_sun_times', 'calc_sun_times')]


def sun(L):
    """sun times: a function of index and location that needs a complete location"""
    def stub(idx, lon, lat, tz):
        if None in (lon, lat, tz):
            raise TypeError('unsupported operand NoneType')
        r = frame(idx.axis, ['sunrise', 'sunnoon', 'sunset', 'daylength'], frozen=False)
        r.__dict__['made_of'] = (idx.axis, lon, lat, tz)
        return r
    sun_stub(L, stub)


class State:
    """arbitrary visible content of a station"""

    def __init__(self, L, lon=False, lat=False, tz=False, data=False, results=False, tag=''):
        self.m = L.package()
        self.lon = parameter('lon' + tag) if lon else None
        self.lat = parameter('lat' + tag) if lat else None
        self.tz = parameter('tz' + tag) if tz else None
        self.df = daily('old' + tag, 'D') if data else None
        self.stats = None
        self.results = results
        self.tag = tag

    def build(self):
        s = self.m.Station(id=7, name='x')
        if self.df is not None:
            s.data_daily = self.df
        for k, v in (('lon', self.lon), ('lat', self.lat), ('timezone', self.tz)):
            if v is not None:
                setattr(s, k, v)
        if self.stats is not None:
            s.statistics = self.stats
        else:
            self.stats = s.statistics
        if self.results:
            for c in COLS:
                s.data_disagg[c] = Series(s.data_disagg.axis, values('result_' + c))
        return s


def daily(name, freq):
    D = days(name, contiguous=freq is not None)
    df = frame(Axis(1, D), [(name + '_tmin', {}), 'precip'], frozen=False)
    df.columns = ['hum', 'precip']
    df['tmin'] = Series(df.axis, values(name + '_t', lo=200))
    df.__dict__['_ix'] = DIndex(df.axis, freq)
    return df


def first_last(df):
    return df.index[0].d, df.index[-1].d


def invariants(s, lon, lat, tz, stats, df, made):
    """what the property says about a station with the given last assigned values (made: content of df when assigned)"""
    for k, v in (('lon', lon), ('lat', lat), ('timezone', tz)):
        ENG.prove('station ' + k, same_content(getattr(s, k), v))
        ENG.prove('statistics ' + k, same_content(getattr(s.statistics, '_' + k), v))
    ENG.prove('statistics object', s.statistics is stats)
    if df is None:
        return
    a, b = first_last(made)
    R = RangeDays(a, b)
    same_index('daily data', s.data_daily.index, 1, R)
    d = day('cell')
    ENG.prove('columns of the daily data', sorted(s.data_daily.columns) == sorted(made.columns))
    for c in made.columns:
        ENG.prove('values of ' + c, IMP(R.has(d), eq(s.data_daily[c].at(d, 0), core.choose(made.axis.has(d, 0), made[c].at(d, 0), NAN))))
    same_index('result table', s.data_disagg.index, 24, R)
    ENG.prove('columns of the result table', sorted(s.data_disagg.columns) == sorted(COLS))
    if None not in (lon, lat, tz):
        m = getattr(s.sun_times, '__dict__', {}).get('made_of')
        ENG.prove('sun times present', m is not None)
        if m is not None:
            same_index('sun times', DIndex(m[0]), 1, R)
            for k, x, y in zip(('longitude', 'latitude', 'time zone'), m[1:], (lon, lat, tz)):
                ENG.prove('sun times of the current ' + k, same_content(x, y))


def same_sun(x, y):
    if x is None or y is None:
        return x is y
    x, y = x.__dict__['made_of'], y.__dict__['made_of']
    d = day('sun')
    return AND(IFF(x[0].has(d, 0), y[0].has(d, 0)), *[same_content(u, v) for u, v in zip(x[1:], y[1:])])


def described(s, st):
    """the state is the one described by st: no memory of the history in any attribute"""
    t = st.build()
    a, b = vars(s), vars(t)
    ENG.prove('attributes', set(a) == set(b), firm=False)
    for k in a:
        g = same_sun(a[k], b.get(k)) if k == 'sun_times' else same_content(a[k], b.get(k))
        ENG.prove('attribute %s does not depend on the history' % k, g, firm=False)


def unchanged(s, before, but=()):
    for k in before:
        if k not in but:
            ENG.prove(k + ' unchanged', same_content(before[k], frozen_copy(getattr(s, k))))


STATES = list(itertools.product((False, True), repeat=4))


def assign_location(attr):
    @item('assignment of ' + attr, SETTERS, maxpaths=400)
    def f(L):
        sun(L)
        for lon, lat, tz, data in STATES:
            st = State(L, lon, lat, tz, data, results=data, tag='_%d%d%d%d' % (lon, lat, tz, data))
            s = st.build()
            before = {k: frozen_copy(getattr(s, k)) for k in PUBLIC}
            v = parameter('new')
            setattr(s, attr, v)
            setattr(st, 'tz' if attr == 'timezone' else attr, v)
            invariants(s, st.lon, st.lat, st.tz, st.stats, st.df, st.df)
            unchanged(s, before, (attr, 'sun_times'))
            described(s, st)


for attr in ('lon', 'lat', 'timezone'):
    assign_location(attr)


@item('assignment of statistics', SETTERS, maxpaths=400)
def assign_statistics(L):
    sun(L)
    for lon, lat, tz, data in STATES:
        st = State(L, lon, lat, tz, data, results=data, tag='_%d%d%d%d' % (lon, lat, tz, data))
        s = st.build()
        before = {k: frozen_copy(getattr(s, k)) for k in PUBLIC}
        new = st.m.StationStatistics(lon=parameter('a'), lat=parameter('b'), timezone=parameter('c'))
        s.statistics = new
        st.stats = new
        invariants(s, st.lon, st.lat, st.tz, new, st.df, st.df)
        unchanged(s, before, ('statistics',))
        described(s, st)


def assign_data(freq):
    @item('assignment of daily data' + (' with absent days' if freq is None else ''), SETTERS + ['melodist.util.hourly_index'], maxpaths=400)
    def f(L):
        sun(L)
        for lon, lat, tz, data in STATES:
            tag = '_%d%d%d%d' % (lon, lat, tz, data)
            st = State(L, lon, lat, tz, data, results=data, tag=tag)
            s = st.build()
            before = {k: frozen_copy(getattr(s, k)) for k in PUBLIC}
            df = daily('new' + tag, freq)
            made = frozen_copy(df)
            df.__dict__['frozen'] = 'data_daily'
            for c in df.cols.values():
                c.frozen = 'data_daily'
            s.data_daily = df
            ENG.prove('the data given are not changed', not ENG.frame_log)
            df.__dict__['frozen'] = None
            # later changes on either side do not reach the other
            df['precip'] = NAN
            df['extra'] = NAN
            invariants(s, st.lon, st.lat, st.tz, st.stats, df, made)
            unchanged(s, before, ('data_daily', 'data_disagg', 'sun_times'))
            d = day('cell')
            for c in COLS:
                for h in range(24):
                    ENG.prove('result table empty', IMP(s.data_disagg.axis.has(d, h), isnan(s.data_disagg[c].at(d, h))))
            st.df, st.results = made.copy(), False
            st.df.__dict__['_ix'] = DIndex(made.axis, freq)
            described(s, st)
            now = frozen_copy(df)
            s.data_daily['hum'] = NAN
            ENG.prove('the data given are not shared', same_content(now, frozen_copy(df)))


assign_data('D')
assign_data(None)


@item('constructor', SETTERS, maxpaths=400)
def constructor(L):
    sun(L)
    for lon, lat, tz, data in STATES:
        st = State(L, lon, lat, tz, data, tag='_%d%d%d%d' % (lon, lat, tz, data))
        s = st.m.Station(id=7, name='x', lon=st.lon, lat=st.lat, timezone=st.tz, data_daily=st.df)
        st.stats = s.statistics
        invariants(s, st.lon, st.lat, st.tz, st.stats, st.df, st.df)
        described(s, st)


# --------------------------------------------------------------------------- disaggregation

from pyvc.core import SStr  # noqa: E402
from pyvc.axis import PredDays  # noqa: E402


def located(L):
    sun(L)
    st = State(L, True, True, True, True, results=True)
    st.df['wind'] = Series(st.df.axis, values('wind_d'))
    st.df['temp'] = Series(st.df.axis, values('temp_d'))
    s = st.build()
    for k in ('wind', 'hum'):
        for n in getattr(s.statistics, k):
            getattr(s.statistics, k)[n] = parameter(n)
    return st, s


def callee(L, q, calls, part=False):
    """a disaggregation function: any hourly values of the days given; its inputs stay as they are"""
    def stub(x, *a, **kw):
        calls.append((x, a, kw))
        return Series(Axis(24, x.axis.days), values(ENG.name('out')))
    if L.patch(q, stub) is None:
        raise core.Unsupported(q + ' not found')


def watched(st, s, op, var):
    before = {k: frozen_copy(getattr(s, k)) for k in PUBLIC}
    table = frozen_copy(s.data_disagg)
    stats = dict(vars(s.statistics))
    inner = {k: dict(v) for k, v in stats.items() if isinstance(v, dict)}
    for t in (s.data_daily, s.sun_times):
        t.__dict__['frozen'] = 'state'
        for c in t.cols.values():
            c.frozen = 'state'
    op()
    ENG.prove('no table of the station is changed in place', not ENG.frame_log)
    unchanged(s, before, ('data_disagg',))
    ENG.prove('statistics unchanged', all(k in vars(s.statistics) and vars(s.statistics)[k] is stats[k] for k in stats))
    ENG.prove('parameters unchanged', all(set(stats[k]) == set(c) and all(stats[k][n] is c[n] for n in c) for k, c in inner.items()))
    same_index('result table', s.data_disagg.index, 24, st.df.axis.days)
    ENG.prove('columns of the result table', sorted(s.data_disagg.columns) == sorted(COLS))
    d = day('cell')
    for c in COLS:
        if c != var:
            for h in range(24):
                ENG.prove('results of %s unchanged' % c, IMP(st.df.axis.has(d, 0), eq(table[c].at(d, h), s.data_disagg[c].at(d, h))))


def method():
    return SStr(ENG.fresh('method', 'I'))


def delegating(name, var, q, stubs=()):
    @item('%s changes only %s' % (name, var), [ST + name], maxpaths=100)
    def f(L):
        st, s = located(L)
        calls = []
        for x in (q,) + tuple(stubs):
            callee(L, x, calls)
        watched(st, s, lambda: getattr(s, name)(method=method()), var)


delegating('disaggregate_wind', 'wind', 'melodist.wind.disaggregate_wind')
delegating('disaggregate_humidity', 'hum', 'melodist.humidity.disaggregate_humidity')
delegating('disaggregate_temperature', 'temp', 'melodist.temperature.disaggregate_temperature')


@item('disaggregate_radiation changes only glob', [ST + 'disaggregate_radiation'], maxpaths=100)
def radiation(L):
    st, s = located(L)
    calls = []
    callee(L, 'melodist.radiation.disaggregate_radiation', calls)

    def pot(idx, *a, **kw):
        return Series(idx.axis, values(ENG.name('pot')))
    if L.patch('melodist.radiation.potential_radiation', pot) is None:
        raise core.Unsupported('potential_radiation not found')
    watched(st, s, lambda: s.disaggregate_radiation(method=method()), 'glob')


def precipitation(name, seasons=0):
    @item('disaggregate_precipitation, %s%s, changes only precip' % (name, ' with %d seasons' % seasons if seasons else ''), [ST + 'disaggregate_precipitation'], maxpaths=100)
    def f(L):
        st, s = located(L)
        calls = []
        callee(L, 'melodist.precipitation.disagg_prec', calls)
        callee(L, 'melodist.precipitation.precip_master_station', calls)

        def subset(x, months):
            P = z3.Function('season_%d' % months, z3.IntSort(), z3.BoolSort())
            m = Series(x.axis, lambda d, h: core.mkbool(P(core.zr(d))))
            return x[m]
        if L.patch('melodist.precipitation.seasonal_subset', subset) is None:
            raise core.Unsupported('seasonal_subset not found')
        if seasons:
            s.statistics.precip.months = list(range(seasons))
            s.statistics.precip.stats = list('abc')[:seasons]
        kw = dict(master_precip=Series(Axis(24, st.df.axis.days), values('master'))) if name == 'masterstation' else {}
        watched(st, s, lambda: s.disaggregate_precipitation(method=name, **kw), 'precip')


precipitation('equal')
precipitation('masterstation')
for n in (1, 2, 3):
    precipitation('cascade', n)
