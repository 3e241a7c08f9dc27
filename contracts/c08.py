"""C08: the mean-preserving sine method keeps daily mean and range."""
from contracts.util import *
from contracts.util import parameter
from pyvc.axis import RangeDays
from pyvc.core import F, REQ, RADD, RSUB, RLE, RLT, RMUL
from pyvc.tables import MonthSeries

FN = ['melodist.temperature.disaggregate_temperature']


def span():
    """an arbitrary gap-free period"""
    a, b = ENG.fresh('first', 'I'), ENG.fresh('last', 'I')
    ENG.assume(a <= b)
    return register_days(RangeDays(a, b))


def setup(L, polar):
    m = L.package()
    D = span() if polar else days()
    df = frame(Axis(1, D), ['tmin', 'tmax', 'temp'])
    # with polar nights: hours of the extremes within the day
    rise, noon = (dict(lo=0, hi=23), dict(lo=6, hi=16)) if polar else ({}, {})
    sun = frame(Axis(1, D), [('sunrise', dict(nan=False, **rise)), ('sunnoon', dict(nan=False, **noon)), ('daylength', dict(nan=False, lo=0 if polar else 3))])
    return m, D, df, sun


def delta(L, bounded=False):
    """monthly shifts of the maximum"""
    T = z3.Function('delta', z3.IntSort(), z3.RealSort())

    def at(m, l):
        t = T(core.zr(m))
        if bounded:
            ENG.fact(AND(t >= -6, t <= 7))
        return SF(t)
    return MonthSeries(at, frozen='max_delta')


def rounded(x):
    return ENG.round(num(x), 0)


def assumed(mode, sun, dl, d):
    """hour of the maximum according to the documentation"""
    if mode == 'fix':
        return SF(14)
    noon, rise = sun.sunnoon.at(d, 0), sun.sunrise.at(d, 0)
    std = rounded(noon) + 2
    if mode == 'sun_loc':
        return std
    x = rounded(noon + dl.fn(axis.month(d), None))
    return core.choose(core.asbool(rounded(rise) > x), std, x)


def claim(out, df, d, ok, m):
    """mean, range and warmest hour of day d"""
    v = [num(out.at(d, h)) for h in range(24)]
    t, a, b = df.temp.at(d, 0), df.tmin.at(d, 0), df.tmax.at(d, 0)
    half = RMUL(F(1, 2), RSUB(b.v, a.v))
    given = AND(ok, NOT(t.nan), NOT(a.nan), NOT(b.nan))
    for h in range(24):
        ENG.prove('hour %d present iff the inputs are' % h, IMP(ok, IFF(NOT(v[h].nan), given)))
    # the course according to the documentation
    c = [ENG.cos(SF(None, pim=RMUL(F(1, 12), RSUB(h, m.v)))).v for h in range(24)]
    e = [RADD(t.v, RMUL(half, x)) for x in c]
    same = [IMP(given, REQ(v[h].v, e[h])) for h in range(24)]
    for h in range(24):
        ENG.have('hour %d: mean plus half the range times the cosine' % h, same[h], firm=False)
    # (where the code's term is literally the expected one there is nothing to abstract from)
    w = [v[h].v if z3.is_expr(same[h]) and not z3.is_true(same[h]) else None for h in range(24)]
    pairs = [REQ(RADD(c[h], c[h + 12]), 0) for h in range(12)]
    for h in range(12):
        ENG.have('cosines half a day apart, %d' % h, pairs[h])
    s = 0
    for x in v:
        s = RADD(s, x.v)
    split = ENG.lemma('opposite cosines cancel', lambda r, p, q: IMP(REQ(RADD(p, q), 0), REQ(RADD(RMUL(r, p), RMUL(r, q)), 0)), 3, heavy=True)
    ENG.derive('daily mean', IMP(given, REQ(s, RMUL(24, t.v))), same + pairs + [split(half, c[h], c[h + 12]) for h in range(12)], w + [t.v] + c)
    bound = ENG.lemma('amplitude times cosine', lambda r, c: IMP(AND(RLE(0, r), RLE(-1, c), RLE(c, 1)), AND(RLE(core.RNEG(r), RMUL(r, c)), RLE(RMUL(r, c), r))), 2, heavy=True)
    times = ENG.lemma('product with one', lambda r, c: AND(IMP(REQ(c, 1), REQ(RMUL(r, c), r)), IMP(REQ(c, -1), REQ(RMUL(r, c), core.RNEG(r)))), 2, heavy=True)
    for h in range(24):
        here = AND(given, RLE(a.v, b.v), REQ(m.v, h))
        o = (h + 12) % 24
        one = [IMP(REQ(m.v, h), REQ(c[h], 1)), IMP(REQ(m.v, h), REQ(c[o], -1))]
        for i, x in enumerate(one):
            ENG.have('cosine at hour %d' % (h, o)[i], x)
        ENG.derive('hour %d is the warmest if assumed so' % h, IMP(here, REQ(v[h].v, RADD(t.v, half))), [same[h], one[0], times(half, c[h])], [w[h], c[h]])
        ENG.derive('hour %d is the coldest then' % o, IMP(here, REQ(v[o].v, RSUB(t.v, half))), [same[o], one[1], times(half, c[o])], [w[o], c[o]])
        in1 = AND(RLE(-1, c[h]), RLE(c[h], 1))
        ENG.have('cosine %d within one' % h, in1)
        goal = IMP(AND(given, RLE(a.v, b.v)), AND(RLE(RSUB(t.v, half), v[h].v), RLE(v[h].v, RADD(t.v, half))))
        ENG.derive('hour %d within the range' % h, goal, [same[h], bound(half, c[h]), in1], [w[h], c[h]])


def mean(mode):
    @item('sine_mean, %s' % mode, FN, maxpaths=200)
    def f(L):
        m, D, df, sun = setup(L, False)
        dl = delta(L)
        out = returns(lambda: m.disaggregate_temperature(df, method='sine_mean', min_max_time=mode, sun_times=sun, max_delta=dl))
        same_index('result', out.index, 24, D)
        d = day('cell')
        claim(out, df, d, D.has(d), assumed(mode, sun, dl, d))
        ENG.prove('inputs unchanged', not ENG.frame_log)


for mode in ('fix', 'sun_loc', 'sun_loc_shift'):
    mean(mode)


def polar(mode):
    @item('sine_mean with polar nights, %s' % mode, FN, maxpaths=200)
    def f(L):
        m, D, df, sun = setup(L, True)
        dl = delta(L, True)
        out = returns(lambda: m.disaggregate_temperature(df, method='sine_mean', min_max_time=mode, sun_times=sun, max_delta=dl))
        same_index('result', out.index, 24, D)
        d = day('cell')
        dark = lambda x: AND(D.has(x), RLT(sun.daylength.at(x, 0).v, 3))
        claim(out, df, d, AND(D.has(d), NOT(dark(d)), NOT(dark(d - 1)), NOT(dark(d + 1))), assumed(mode, sun, dl, d))
        ENG.prove('inputs unchanged', not ENG.frame_log)


for mode in ('fix', 'sun_loc', 'sun_loc_shift'):
    polar(mode)
