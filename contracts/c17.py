"""C17: sun times."""
from contracts.util import *
from contracts.util import parameter
from pyvc.axis import doy
from pyvc.core import F, RADD, REQ, RLE, RLT, RMUL, RSUB

FN = ['melodist.util.util.get_sun_times']


def wrap(a, b):
    """a == b up to a full day"""
    x = RSUB(a, b)
    return OR(REQ(x, 0), REQ(x, 24), REQ(x, -24))


def place(lat=None):
    p = lat or parameter('lat')
    ENG.assume(AND(RLT(-90, p.v), RLT(p.v, 90)))
    return p


class Times:
    def __init__(self, L, D, d, lon, lat, tz):
        out = returns(lambda: L.package().util.get_sun_times(DIndex(Axis(1, D)), lon, lat, tz))
        self.out = out
        self.c = {c: num(out[c].at(d, 0)) for c in ('sunrise', 'sunnoon', 'sunset', 'daylength')}

    def __getattr__(self, n):
        return self.c[n].v


def declination(d):
    """after Bourges (1985)"""
    n = SF(doy(d))
    x = SF(0, pim=RMUL(F(1, 180), (SF(F(360) / F('365.25')) * (n - F('79.346'))).v))
    two, three = x * 2, x * 3
    dec = (SF(F('0.3723')) + F('23.2567') * ENG.sin(x) - F('0.7580') * ENG.cos(x) + F('0.1149') * ENG.sin(two) + F('0.3656') * ENG.cos(two)
           - F('0.1712') * ENG.sin(three) + F('0.0201') * ENG.cos(three))
    return SF(0, pim=RMUL(F(1, 180), dec.v))


def tan_deg(x):
    return ENG.tan(SF(0, pim=RMUL(F(1, 180), x.v)))


def start():
    D = days()
    d = day()
    ENG.assume(D.has(d))
    return D, d


def end():
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)


@item('one place', FN)
def one(L):
    D, d = start()
    t = Times(L, D, d, parameter('lon'), place(), parameter('tz'))
    same_index('days', t.out.index, 1, D)
    for c, x in t.c.items():
        ENG.prove('%s is defined' % c, AND(NOT(x.nan), NOT(x.pinf), NOT(x.ninf)), firm=False)
    ENG.prove('day length within 0..24 h', AND(RLE(0, t.daylength), RLE(t.daylength, 24)), firm=False)
    ENG.prove('day length is sunset minus sunrise up to a full day', wrap(RSUB(t.sunset, t.sunrise), t.daylength), firm=False)
    ENG.prove('solar noon is midway between sunrise and sunset', wrap(RADD(t.sunrise, t.sunset), RMUL(2, t.sunnoon)), firm=False)
    end()


@item('opposite latitudes', FN)
def opposite(L):
    D, d = start()
    lat = place()
    lon, tz = parameter('lon'), parameter('tz')
    a = Times(L, D, d, lon, lat, tz)
    b = Times(L, D, d, lon, -lat, tz)
    t = ENG.tan(declination(d))
    for x in (lat, -lat):
        tan_deg(x)
    ENG.have('tangents of opposite latitudes', REQ(tan_deg(-lat).v, (-tan_deg(lat)).v), firm=False)
    ENG.have('opposite arguments', REQ((tan_deg(-lat) * t).v, (-(tan_deg(lat) * t)).v), firm=False)
    x, y = -tan_deg(lat) * t, -tan_deg(-lat) * t
    inside = AND(RLE(-1, x.v), RLE(x.v, 1))
    p, q = ENG.acos(x), ENG.acos(y)
    ENG.have('sun angles of opposite latitudes', IMP(inside, REQ(RADD(p.v, q.v), ENG.PI)), firm=False)
    w = ENG.inv(ENG.PI)
    hyp = IMP(inside, REQ(RADD(p.v, q.v), ENG.PI))
    ENG.have('reciprocal of pi', REQ(RMUL(ENG.PI, w), 1))
    ENG.derive('the sun angles add up to half a turn', IMP(inside, REQ(RADD(RMUL(p.v, w), RMUL(q.v, w)), 1)), [hyp, REQ(RMUL(ENG.PI, w), 1)],
               [x.v, p.v, q.v, w], heavy=True)
    ENG.prove('day lengths add up to 24 h', REQ(RADD(a.daylength, b.daylength), 24), firm=False)
    end()


@item('polar day and night', FN)
def polar(L):
    D, d = start()
    lat = place()
    t = Times(L, D, d, parameter('lon'), lat, parameter('tz'))
    dec = declination(d)
    arg = tan_deg(lat) * ENG.tan(dec)
    ENG.prove('24 h of daylight under midnight sun', IMP(RLT(1, arg.v), REQ(t.daylength, 24)), firm=False)
    ENG.prove('no daylight in polar night', IMP(RLT(arg.v, -1), REQ(t.daylength, 0)), firm=False)
    end()


@item('other longitude and time zone', FN)
def shift(L):
    D, d = start()
    lat = place()
    lon, tz = parameter('lon'), parameter('tz')
    a = Times(L, D, d, lon, lat, tz)
    b = Times(L, D, d, parameter('lon'), lat, parameter('tz'))
    ENG.prove('day length depends on latitude and date only', REQ(a.daylength, b.daylength), firm=False)
    for what, o in (('15 degrees east', Times(L, D, d, lon + 15, lat, tz)), ('one time zone west', Times(L, D, d, lon, lat, tz - 1))):
        ENG.prove('%s: solar noon one hour earlier' % what, REQ(o.sunnoon, RSUB(a.sunnoon, 1)), firm=False)
        ENG.prove('%s: sunrise one hour earlier' % what, wrap(o.sunrise, RSUB(a.sunrise, 1)), firm=False)
        ENG.prove('%s: sunset one hour earlier' % what, wrap(o.sunset, RSUB(a.sunset, 1)), firm=False)
    end()
