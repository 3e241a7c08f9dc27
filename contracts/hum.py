"""Shared set-up of the humidity contracts (C10, C11)."""
import z3
from contracts.util import *
from pyvc.core import F, RADD, REQ, RLE, RLT, RMUL, RSUB, SF, zr
from pyvc.tables import Stacked

FN = ['melodist.humidity.disaggregate_humidity', 'melodist.util.util.distribute_equally', 'melodist.util.util.hourly_index',
      'melodist.util.util.vapor_pressure']
COLS = ['hum', 'tmin', 'tmax', 'hum_min', 'hum_max', 'precip']
TAB = z3.Function('humidity_mean', z3.IntSort(), z3.IntSort(), z3.BoolSort(), z3.RealSort())


def table():
    def fn(m, h, w):
        t = TAB(zr(m), zr(h), core.zb(w.b if hasattr(w, 'b') else w))
        return SF(t)
    return Stacked(fn, order=('month', 'hour', 'wet'), frozen='month_hour_precip_mean')


class Case:
    """an arbitrary day d of an arbitrary daily series with arbitrary hourly temperatures"""

    def __init__(self, method):
        self.method = method
        self.D = D = days()
        self.f = frame(Axis(1, D), COLS)
        self.temp = series(Axis(24, D), 'temp', lo=31)
        self.d = d = day()
        ENG.assume(D.has(d))
        self.v = {c: values(c)(d) for c in COLS}
        self.t = [values('temp', lo=31)(d, h) for h in range(24)]
        self.kw = dict(method=method, temp=self.temp)
        self.a0, self.a1 = parameter('a0'), parameter('a1')
        if method in ('dewpoint_regression', 'linear_dewpoint_variation'):
            self.kw.update(a0=self.a0, a1=self.a1)
        elif method == 'minimal':
            self.a0, self.a1 = SF(0), SF(1)
        elif method == 'month_hour_precip_mean':
            self.kw.update(month_hour_precip_mean=table())
        if method == 'min_max':
            ENG.assume(RLT(self.v['tmin'].v, self.v['tmax'].v))
            ENG.assumed.add('min_max: the daily maximum temperature exceeds the minimum')
        self.last = d == D.last
        p = D.pos(d)
        self.nd = z3.If(self.last, d, D.at(p + 1))
        D.has(self.nd)
        if method in ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation'):
            # dew points and temperatures above 31 K: the poles of the Magnus formula (30.03 K, 0.53 K) lie below
            ENG.assumed.add('temperatures and dew points exceed 31 K (poles of the Magnus formula)')
            ENG.assume(RLT(31, (self.a0 + self.a1 * values('tmin')(d)).v))
            if method == 'linear_dewpoint_variation':
                ENG.assume(IMP(NOT(self.last), RLT(31, (self.a0 + self.a1 * values('tmin')(D.at(p + 1))).v)))
        self.tdew = self.a0 + self.a1 * self.v['tmin']

    def call(self, L, **kw):
        k = dict(self.kw)
        k.update(kw)
        return returns(lambda: L.package().disaggregate_humidity(self.f, **k))

    def needed_missing(self, h):
        v, t = self.v, self.t[h]
        return {
            'equal': lambda: v['hum'].nan,
            'minimal': lambda: OR(v['tmin'].nan, t.nan),
            'dewpoint_regression': lambda: OR(v['tmin'].nan, t.nan),
            'linear_dewpoint_variation': lambda: OR(v['tmin'].nan, values('tmin')(self.nd).nan, t.nan),
            'min_max': lambda: OR(v['hum_min'].nan, v['hum_max'].nan, v['tmin'].nan, v['tmax'].nan, t.nan),
            'month_hour_precip_mean': lambda: False,
        }[self.method]()


METHODS = [('equal', {}), ('minimal', {}), ('dewpoint_regression', {}), ('linear_dewpoint_variation', dict(kr=6)),
           ('linear_dewpoint_variation', dict(kr=12)), ('min_max', {}), ('month_hour_precip_mean', {})]
