"""C12: vapour pressure and dew point."""
from contracts.util import *
from pyvc.axis import PosAxis
from pyvc.vec import NDArr
from pyvc.core import F, SF, RLE, RLT, REQ, RMUL, zreal

UT = ['melodist.util.util.vapor_pressure']
UD = UT + ['melodist.util.util.dewpoint_temperature']


def inputs(kind, hlo=0, hhi=None):
    """temperatures above the poles of the Magnus formula (more than 30 K), any humidity > 0"""
    if kind == 'series':
        ax = Axis(24, days())
        t, h = series(ax, 'temp', lo=31), series(ax, 'hum', lo=hlo, hi=hhi)
        l1, l2 = (day(), 5), (day(), 17)
    else:
        import z3
        n = ENG.fresh('n', 'I')
        ax = PosAxis(n)
        tv, hv = values('temp', lo=31), values('hum', lo=hlo, hi=hhi)
        t, h = NDArr(ax, lambda q: tv(q)), NDArr(ax, lambda q: hv(q))
        t.frozen = h.frozen = True
        l1, l2 = (ENG.fresh('i', 'I'),), (ENG.fresh('j', 'I'),)
    return ax, t, h, l1, l2


def vp(kind):
    @item('vapor_pressure on %s' % kind, UT)
    def f(L):
        ax, t, h, l1, l2 = inputs(kind)
        for q in (l1, l2):
            ENG.assume(ax.has(*q))
        fn = L.package().util.vapor_pressure
        e = returns(lambda: fn(t, h))
        e1, e2 = num(e.at(*l1)), num(e.at(*l2))
        t1, t2, h1, h2 = num(t.at(*l1)), num(t.at(*l2)), num(h.at(*l1)), num(h.at(*l2))
        ENG.prove('missing iff temperature or humidity is missing', IFF(e1.nan, OR(t1.nan, h1.nan)))
        ok = AND(NOT(e1.nan), NOT(e2.nan))
        ENG.prove('finite', IMP(ok, AND(NOT(e1.pinf), NOT(e1.ninf))))
        ENG.prove('positive for positive humidity', IMP(AND(ok, RLT(0, h1.v)), RLT(0, e1.v)), firm=False)
        ENG.prove('proportional to humidity', IMP(AND(ok, REQ(t1.v, t2.v)), REQ(RMUL(e1.v, h2.v), RMUL(e2.v, h1.v))), firm=False)
        ENG.prove('strictly increasing with temperature (same side of the freezing point)',
                  IMP(AND(ok, REQ(h1.v, h2.v), RLT(0, h1.v), RLT(t1.v, t2.v), OR(RLT(t2.v, F('273.15')), RLE(F('273.15'), t1.v))), RLT(e1.v, e2.v)), firm=False)
        # scalar humidity: saturation pressure
        s = returns(lambda: fn(t, 100))
        s1 = num(s.at(*l1))
        ENG.prove('scalar humidity is the same humidity everywhere', IMP(AND(NOT(e1.nan), REQ(h1.v, 100)), eq(s1, e1)))
        ENG.prove('scalar humidity: missing iff temperature is', IFF(s1.nan, t1.nan))
        ENG.prove('inputs unchanged', not ENG.frame_log)
        ENG.prove('deterministic', ENG.random_used == 0)


def dp(kind):
    @item('dewpoint_temperature on %s' % kind, UD)
    def f(L):
        ax, t, h, l1, l2 = inputs(kind, 0, 100)
        ENG.assume(ax.has(*l1))
        fn = L.package().util.dewpoint_temperature
        td = returns(lambda: fn(t, h))
        x, t1, h1 = num(td.at(*l1)), num(t.at(*l1)), num(h.at(*l1))
        pos = AND(NOT(t1.nan), NOT(h1.nan), RLT(0, h1.v))
        ENG.prove('missing if temperature or humidity is missing', IMP(OR(t1.nan, h1.nan), x.nan))
        ENG.prove('dew point of saturated air is the air temperature', IMP(AND(pos, REQ(h1.v, 100)), eq(x, t1)), firm=False)
        ENG.prove('defined for positive humidity', IMP(pos, NOT(x.nan)), firm=False)
        ENG.prove('dew point does not exceed the air temperature', IMP(pos, RLE(x.v, t1.v)), firm=False)
        ENG.prove('inputs unchanged', not ENG.frame_log)
        ENG.prove('deterministic', ENG.random_used == 0)


for k in ('series', 'ndarray'):
    vp(k)
    dp(k)
