"""C27: invalid methods and options are rejected."""
from contracts.util import *
from contracts.util import parameter, same_content, seen, sun_stub
from pyvc.core import F, REQ, RLE, RLT, SStr
from pyvc.tables import Course, Stacked

METHODS = {
    'disagg_prec': ['equal', 'cascade', 'masterstation'],
    'disaggregate_temperature': ['sine_min_max', 'sine_mean', 'sine', 'mean_course_min_max', 'mean_course_mean'],
    'disaggregate_humidity': ['equal', 'minimal', 'dewpoint_regression', 'min_max', 'linear_dewpoint_variation', 'month_hour_precip_mean'],
    'disaggregate_wind': ['equal', 'cosine', 'random'],
    'disaggregate_radiation': ['pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'],
}
MOD = dict(disagg_prec='precipitation', disaggregate_temperature='temperature', disaggregate_humidity='humidity', disaggregate_wind='wind', disaggregate_radiation='radiation')
DAILY = ['tmin', 'tmax', 'temp', 'precip', 'wind', 'hum', 'glob', 'hum_min', 'hum_max', 'ssd']


def unknown(names):
    """a string that is none of the known names"""
    t = ENG.fresh('method', 'I')
    for n in names:
        ENG.assume(t != SStr.code(n))
    return SStr(t)


class Inputs:
    """daily data with all variables and everything else that the methods may need"""

    def __init__(self, L):
        self.m = L.package()
        self.D = days()
        self.df = frame(Axis(1, self.D), DAILY)
        hx = Axis(24, self.D)
        self.temp = series(hx, 'temp_h')
        self.pot = series(hx, 'pot', nan=False, lo=0)
        self.sun = frame(Axis(1, self.D), ['daylength', 'sunrise', 'sunnoon', 'sunset'], nan=False, lo=0)
        T = z3.Function('table', z3.IntSort(), z3.IntSort(), z3.RealSort())
        self.course = Course(lambda m, h: SF(T(core.zr(m), core.zr(h))), frozen='mean_course')
        self.casc = self.m.cascade.CascadeStatistics()
        self.casc.fill_with_sample_data()

    def args(self, f):
        return dict(
            disagg_prec=((self.df,), dict(cascade_options=self.casc, hourly_data_obs=self.pot)),
            disaggregate_temperature=((self.df,), dict(sun_times=self.sun, mean_course=self.course)),
            disaggregate_humidity=((self.df,), dict(temp=self.temp, a0=parameter('a0'), a1=parameter('a1'), kr=12)),
            disaggregate_wind=((self.df.wind,), dict(a=parameter('a'), b=parameter('b'), t_shift=parameter('t'))),
            disaggregate_radiation=((self.df,), dict(sun_times=self.sun, pot_rad=self.pot, mean_course=self.course)),
        )[f]


def names(f):
    @item('%s: unknown method' % f, ['melodist.%s.%s' % (MOD[f], f)])
    def g(L):
        x = Inputs(L)
        a, kw = x.args(f)
        raises(lambda: getattr(x.m, f)(*a, method=unknown(METHODS[f]), **kw), 'every other method name is rejected')
        ENG.prove('inputs unchanged', not ENG.frame_log)


for f in METHODS:
    names(f)


CASC = ['melodist.precipitation.disagg_prec_cascade']


class AnyList(list):
    """a list of arbitrary length"""

    def __init__(self, n):
        super().__init__()
        self.n = n

    def _len(self):
        return SF(self.n)


@item('cascade: fewer than two days', CASC)
def short(L):
    x = Inputs(L)
    ENG.assume(x.D.n < 2)
    raises(lambda: x.m.disagg_prec_cascade(x.df.precip, x.casc), 'one day is rejected')
    ENG.prove('inputs unchanged', not ENG.frame_log)


def lists(level, hourly):
    @item('cascade: list of statistics of wrong length, %s' % ('hourly' if hourly else 'level %d' % level), CASC)
    def g(L):
        x = Inputs(L)
        n = ENG.fresh('len', 'I')
        ENG.assume(AND(n >= 0, n != (5 if hourly else level)))
        raises(lambda: x.m.disagg_prec_cascade(x.df.precip, AnyList(n), hourly=hourly, level=level), 'every other length is rejected')
        ENG.prove('inputs unchanged', not ENG.frame_log)


lists(9, True)
for level in (9, 10, 11):
    lists(level, False)


class Opaque:
    """an object of some other type"""


@item('cascade: statistics of wrong type', CASC)
def types(L):
    x = Inputs(L)
    for what, o in (('None', None), ('a string', 'x'), ('a number', parameter('p')), ('a dictionary', {}), ('a tuple', (x.casc,) * 5), ('another object', Opaque())):
        raises(lambda: x.m.disagg_prec_cascade(x.df.precip, o), what + ' is rejected')
    ENG.prove('inputs unchanged', not ENG.frame_log)


@item('cascade without statistics', ['melodist.precipitation.disagg_prec'])
def nocasc(L):
    x = Inputs(L)
    raises(lambda: x.m.disagg_prec(x.df.precip, method='cascade'), 'missing statistics are rejected')
    ENG.prove('inputs unchanged', not ENG.frame_log)


HUM = ['melodist.humidity.disaggregate_humidity']


@item('humidity: period of the dew point variation', HUM)
def period(L):
    x = Inputs(L)
    kr = parameter('kr')
    ENG.assume(NOT(OR(REQ(kr.v, 6), REQ(kr.v, 12))))
    raises(lambda: x.m.disaggregate_humidity(x.df, method='linear_dewpoint_variation', temp=x.temp, a0=parameter('a0'), a1=parameter('a1'), kr=kr), 'every other number is rejected')
    raises(lambda: x.m.disaggregate_humidity(x.df, method='linear_dewpoint_variation', temp=x.temp, a0=parameter('a0'), a1=parameter('a1')), 'a missing period is rejected')
    ENG.prove('inputs unchanged', not ENG.frame_log)


@item('humidity: required parameters', HUM)
def required(L):
    x = Inputs(L)
    f = x.m.disaggregate_humidity
    a0, a1 = parameter('a0'), parameter('a1')
    for method in ('dewpoint_regression', 'linear_dewpoint_variation'):
        for kw in (dict(a0=a0), dict(a1=a1), {}):
            raises(lambda: f(x.df, method=method, temp=x.temp, kr=12, **kw), '%s with %s only' % (method, ', '.join(kw) or 'kr'))
    raises(lambda: f(x.df, method='month_hour_precip_mean'), 'month_hour_precip_mean without table')
    for c in ('hum_min', 'hum_max'):
        g = frame(x.df.axis, [n for n in DAILY if n != c])
        raises(lambda: f(g, method='min_max', temp=x.temp), 'min_max without ' + c)
    ENG.prove('inputs unchanged', not ENG.frame_log)


@item('wind: required parameters', ['melodist.wind.disaggregate_wind'])
def wind(L):
    x = Inputs(L)
    p = dict(a=parameter('a'), b=parameter('b'), t_shift=parameter('t'))
    for drop in (('a',), ('b',), ('t_shift',), ('a', 'b'), ('a', 't_shift'), ('b', 't_shift'), ('a', 'b', 't_shift')):
        raises(lambda: x.m.disaggregate_wind(x.df.wind, method='cosine', **{k: v for k, v in p.items() if k not in drop}), 'cosine without ' + ', '.join(drop))
    ENG.prove('inputs unchanged', not ENG.frame_log)


@item('radiation: required parameters', ['melodist.radiation.disaggregate_radiation'])
def radiation(L):
    x = Inputs(L)
    f = x.m.disaggregate_radiation
    raises(lambda: f(x.df, method='mean_course', sun_times=x.sun), 'mean_course without table')
    for method in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc'):
        raises(lambda: f(x.df, method=method, sun_times=x.sun), method + ' without potential radiation')
    ENG.prove('inputs unchanged', not ENG.frame_log)


STATION = ['melodist.station.Station.data_daily', 'melodist.station.Station.__init__']


class Other:
    """an index of which only one thing is known"""
    _is_dtindex = True

    def __init__(self, resolution='day', increasing=True):
        self.resolution, self.is_monotonic_increasing = resolution, increasing

    def __getattr__(self, k):
        raise core.Unsupported('index.' + k)


class Indexed:
    """daily data on an index of which only one thing is known"""
    _is_frame = True

    def __init__(self, index):
        self.index = index

    def __getattr__(self, k):
        raise core.Unsupported('frame.' + k)


def station(L, located, filled):
    """a station with or without location and with or without daily data"""
    m = L.package()
    s = m.Station()
    if located:
        s.lon, s.lat, s.timezone = parameter('lon'), parameter('lat'), parameter('tz')
    if filled:
        old = days('old', contiguous=True)
        g = frame(Axis(1, old), ['tmin', 'precip'], nan=False, lo=200)
        freq(g, 'D')
        sun_stub(L, lambda idx, *a: frame(idx.axis, ['sunrise', 'sunset']))
        s.data_daily = g
    return m, s


def freq(g, f):
    object.__setattr__(g, '_ix', DIndex(g.axis, f))


def rejected(s, v, what):
    before = seen(s)

    def assign():
        s.data_daily = v
    raises(assign, what + ' rejected')
    after = seen(s)
    for k in before:
        ENG.prove('%s: %s unchanged' % (what, k), k in after and same_content(before[k], after[k]))
    ENG.prove(what + ': data unchanged', not ENG.frame_log)


def assignments(located, filled):
    tag = ', %s location, %s data' % ('with' if located else 'without', 'with' if filled else 'without')

    @item('station: not daily data' + tag, STATION)
    def kind(L):
        m, s = station(L, located, filled)
        rejected(s, None, 'no table')
        D = days()
        rejected(s, series(Axis(1, D), 'x'), 'a series')
        rejected(s, frame(Axis(24, D), ['tmin', 'tmax']), 'hourly data')
        rejected(s, Indexed(Other(resolution=unknown(['day']))), 'data that are not daily')
        rejected(s, Indexed(Other(increasing=False)), 'unsorted data')

    for var in ('tmin', 'tmax', 'tmean'):
        for f in (None, 'D'):
            def g(L, var=var, f=f):
                m, s = station(L, located, filled)
                D = days('D', contiguous=f is not None)
                df = frame(Axis(1, D), ['tmin', 'tmax', 'tmean', 'precip'])
                freq(df, f)
                d = ENG.fresh('cold', 'I')
                ENG.assume(D.has(d))
                x = df[var].at(d, 0)
                ENG.assume(AND(NOT(x.nan), RLT(x.v, 200)))
                vec.watch(d)
                df.__dict__['frozen'] = 'data_daily'
                rejected(s, df, 'low ' + var)
            item('station: %s below 200 K, %s%s' % (var, 'days absent' if f is None else 'regular', tag), STATION)(g)


for located in (False, True):
    for filled in (False, True):
        assignments(located, filled)


def methods(f):
    g = 'disagg_prec' if f == 'disaggregate_precipitation' else f

    @item('station: %s with an unknown method' % f, ['melodist.station.Station.' + f])
    def fn(L):
        m, s = station(L, True, False)
        sun_stub(L, lambda idx, *a: frame(idx.axis, ['sunrise', 'sunset', 'daylength', 'sunnoon']))
        D = days('D', contiguous=True)
        df = frame(Axis(1, D), [(n, dict(lo=200) if n in ('tmin', 'tmax') else {}) for n in DAILY])
        freq(df, 'D')
        s.data_daily = df
        raises(lambda: getattr(s, f)(method=unknown(METHODS[g])), 'every other method name is rejected')
        ENG.prove('data unchanged', not ENG.frame_log)


for f in ('disaggregate_precipitation', 'disaggregate_temperature', 'disaggregate_humidity', 'disaggregate_wind', 'disaggregate_radiation'):
    methods(f)
