"""C15: potential radiation."""
from contracts.util import *
from contracts.util import parameter
from pyvc.axis import doy
from pyvc.core import F, asbool, RADD, REQ, RLE, RLT, RMUL, RSUB

FN = ['melodist.radiation.potential_radiation']
HOURS = range(24)


def bounded(name, lo, hi):
    p = parameter(name)
    ENG.fact(RLE(lo, p.v))
    ENG.fact(RLE(p.v, hi))
    return p


def radius_ratio(d):
    b = SF(0, pim=RMUL(2, (SF(doy(d)) / F('365.25')).v))
    return (F('1.00011') + F('0.034221') * ENG.cos(b) + F('0.00128') * ENG.sin(b) + F('0.000719') * ENG.cos(b * 2) + F('0.000077') * ENG.sin(b * 2))


def call(L, slope=True, cloud=None, **kw):
    D = days()
    d = day()
    ENG.assume(D.has(d))
    a = dict(lon=parameter('lon'), lat=parameter('lat'), timezone=parameter('tz'), cloud_fraction=bounded('cloud', 0, 1) if cloud is None else cloud)
    if slope:
        a.update(terrain_slope=parameter('slope'), terrain_slope_azimuth=parameter('azimuth'))
    a.update(kw)
    idx = DIndex(Axis(24, D))
    out = returns(lambda: L.package().potential_radiation(idx, **a))
    same_index('times', out.index, 24, D)
    return D, d, a, out, idx


def end():
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)


def sun(d, h, a):
    """sine of the height of the sun, cosine of the declination, hour angle"""
    dec = SF(0, pim=RMUL(F(1, 180), (F('23.43697') * ENG.cos(SF(0, pim=RMUL(2, ((SF(doy(d)) - 173) / F('365.25')).v)))).v))
    lat = SF(0, pim=RMUL(F(1, 180), a['lat'].v))
    ha = SF(0, pim=(((h + (a['lon'] - a['timezone'] * 15) * 24 / 360) / 12) - 1).v)
    return ENG.sin(dec) * ENG.sin(lat) + ENG.cos(dec) * ENG.cos(lat) * ENG.cos(ha), ENG.cos(dec), ha


def incidence(cs, ss, c, s, m):
    i = (SF(cs) * SF(c) + SF(ss) * SF(s) * SF(m)).v
    sq = lambda x: RMUL(x, x)
    return IMP(AND(REQ(RADD(sq(cs), sq(ss)), 1), REQ(RADD(sq(c), sq(s)), 1), RLE(-1, m), RLE(m, 1)), RLE(i, 1))


def parts(R, c, cf, i):
    R, c, cf, i = SF(R), SF(c), SF(cf), SF(i)
    return R * ((F('0.6') + F('0.2') * c) * (SF(1) - cf)) * i, R * ((F('0.3') + F('0.1') * c) * cf) * c


def upper(R, c, cf, i):
    x, y = parts(R, c, cf, i)
    return IMP(AND(RLT(0, R), RLE(0, c), RLE(c, 1), RLE(0, cf), RLE(cf, 1), RLE(i, 1)), AND(RLE((x + y).v, RMUL(F('0.8'), R)), RLE(y.v, RMUL(F('0.8'), R))))


@item('range', FN)
def total(L):
    D, d, a, out, idx = call(L)
    r = radius_ratio(d)
    ratio = AND(RLE(F('0.9'), r.v), RLE(r.v, F('1.0367')))
    ENG.have('distance of the sun', ratio, firm=False)
    inc = ENG.lemma('cosine of the incidence angle is at most 1', incidence, 5, heavy=True)
    up = ENG.lemma('direct plus diffuse radiation', upper, 4, heavy=True)
    sl, az, cf = a['terrain_slope'], a['terrain_slope_azimuth'], a['cloud_fraction']
    cs, ss = ENG.cos(sl), ENG.sin(sl)
    unit = REQ(RADD(RMUL(cs.v, cs.v), RMUL(ss.v, ss.v)), 1)
    ENG.have('slope', unit)
    cloud = [RLE(0, cf.v), RLE(cf.v, 1)]
    for h in HOURS:
        o = num(out.at(d, h))
        height, cdec, ha = sun(d, h, a)
        c = core.clip(height, 0, 1)
        z = ENG.acos(c)
        s = ENG.sin(z)
        mu = ENG.acos(core.clip(cdec * ENG.sin(ha) / core.choose(asbool(s > 0), s, SF(1)), -1, 1), asin=True)
        m = ENG.cos(mu - az)
        cosi = cs * c + ss * s * m
        R = 1367 * r
        sq = lambda x: RMUL(x.v, x.v)
        hyps = [unit, REQ(RADD(sq(c), sq(s)), 1), AND(RLE(-1, m.v), RLE(m.v, 1), RLE(0, c.v), RLE(c.v, 1))]
        cz = ENG.cos(z)
        ENG.have('hour %02d: bounds of the angles of the sun' % h, hyps[2], firm=False)
        ENG.have('hour %02d: cosine of the zenith angle' % h, REQ(cz.v, c.v), firm=False)
        ENG.derive('hour %02d: sine of the zenith angle' % h, hyps[1], [REQ(cz.v, c.v), cz.v * cz.v + s.v * s.v == 1], [c.v, s.v, cz.v], heavy=True)
        atoms = [cs.v, ss.v, c.v, s.v, m.v]
        ENG.derive('hour %02d: incidence' % h, RLE(cosi.v, 1), hyps + [inc(*atoms)], atoms, heavy=True)
        x, y = parts(R.v, c.v, cf.v, cosi.v)
        lim = RMUL(F(8, 10) * 1367, r.v)
        ENG.derive('hour %02d: upper limit of the parts' % h, AND(RLE((x + y).v, lim), RLE(y.v, lim)),
                   [up(R.v, c.v, cf.v, cosi.v), hyps[2], RLE(cosi.v, 1), ratio] + cloud, [r.v, cosi.v, c.v, x.v, y.v])
        ENG.derive('hour %02d: upper limit' % h, RLE(o.v, lim), [AND(RLE((x + y).v, lim), RLE(y.v, lim))], [x.v, y.v, r.v], quiet=True)
        ENG.prove('hour %02d is defined' % h, AND(NOT(o.nan), NOT(o.pinf), NOT(o.ninf)), firm=False)
        ENG.prove('hour %02d is not negative' % h, RLE(0, o.v), firm=False)
        ENG.prove('hour %02d is at most 80 percent of the solar constant' % h, RLE(o.v, RMUL(F(8, 10) * 1367, r.v)), firm=False)
    end()


@item('direct and diffuse', FN)
def split(L):
    D, d, a, out, idx = call(L, split=True)
    b = dict(a)
    b['split'] = False
    tot = returns(lambda: L.package().potential_radiation(idx, **b))
    for h in HOURS:
        x, y, t = num(out['direct'].at(d, h)), num(out['diffuse'].at(d, h)), num(tot.at(d, h))
        ENG.prove('hour %02d: parts are not negative' % h, AND(NOT(x.nan), NOT(y.nan), RLE(0, x.v), RLE(0, y.v)), firm=False)
        ENG.prove('hour %02d: parts add up to the total' % h, eq(t, x + y), firm=False)
        ENG.prove('hour %02d: overcast sky has no direct radiation' % h, IMP(REQ(a['cloud_fraction'].v, 1), REQ(x.v, 0)), firm=False)
        ENG.prove('hour %02d: clear sky has no diffuse radiation' % h, IMP(REQ(a['cloud_fraction'].v, 0), REQ(y.v, 0)), firm=False)
    end()


@item('flat terrain', FN)
def flat(L):
    D, d, a, out, idx = call(L, slope=False)
    for h in HOURS:
        o = num(out.at(d, h))
        height = sun(d, h, a)[0]
        ENG.prove('hour %02d is zero with the sun below the horizon' % h, IMP(RLE(height.v, 0), eq(o, SF(0))), firm=False)
    end()
