"""C07: the extremes-preserving sine method reproduces daily minima and maxima."""
from contracts.util import *
from contracts.util import parameter
from pyvc import loops
from pyvc.axis import RangeDays
from pyvc.core import F, REQ, RADD, RSUB, RLE, RLT, RMUL
from pyvc.tables import MonthSeries

FN = ['melodist.temperature.disaggregate_temperature']
PI = SF(None, pim=1)


def span():
    """an arbitrary gap-free period"""
    a, b = ENG.fresh('first', 'I'), ENG.fresh('last', 'I')
    ENG.assume(a <= b)
    return register_days(RangeDays(a, b))


def setup(L, mode, polar, within):
    """within: on every day the maximum is between 12 and 23 h and after the minimum"""
    m = L.package()
    D = span() if polar else days()
    if polar:
        ENG.cache['opaque', 'round'] = True
    ax = Axis(1, D)
    df = frame(ax, ['tmin', 'tmax', 'temp'])
    T = z3.Function('delta', z3.IntSort(), z3.RealSort())
    dl = MonthSeries(lambda mo, l: SF(T(core.zr(mo))), frozen='max_delta')
    sun = frame(ax, [('daylength', dict(nan=False, lo=0 if polar else 3))])
    free = {n: values(n, nan=False) for n in ('sunrise', 'sunnoon')}

    def cell(n):
        def at(d, s=0):
            k = ('sun', core.zr(d).get_id())
            if within and mode != 'fix' and k not in ENG.cache:
                ENG.cache[k] = d
                usual(d)
            return free[n](d, s)
        return at

    def usual(d):
        lo, hi = locations(mode, free, dl, d)
        ENG.fact(IMP(D.has(d), AND(RLE(0, lo.v), RLT(lo.v, hi.v), RLE(12, hi.v), RLE(hi.v, 23))))
    free['usual'] = usual
    cols = {n: sun[n] for n in sun.columns}
    for n in ('sunrise', 'sunnoon'):
        cols[n] = Series(ax, cell(n), name=n)
        cols[n].frozen = True
    return m, D, df, Frame(ax, cols, frozen=True), free, dl


def locations(mode, sun, dl, d):
    """hours of the extremes according to the documentation"""
    rnd = lambda x: ENG.round(num(x), 0)
    if mode == 'fix':
        return SF(7), SF(14)
    noon, rise = sun['sunnoon'](d, 0), sun['sunrise'](d, 0)
    lo, hi = rnd(rise), rnd(noon) + 2
    if mode == 'sun_loc_shift':
        x = rnd(noon + dl.fn(axis.month(d), None))
        hi = core.choose(core.asbool(lo > x), hi, x)
    # a sunrise after the maximum is one before midnight
    return core.choose(core.asbool(lo > hi), SF(0), lo), hi


def claim(out, df, D, d, ok, lo, hi, night, skip=None):
    """extremes and range of day d; skip(h): nothing is claimed for hour h"""
    n, x = df.tmin, df.tmax
    first, last = D.first, D.last
    before, cur_x = core.choose(REQ(d, first), x.at(d, 0), x.at(d - 1, 0)), x.at(d, 0)
    after, cur_n = core.choose(REQ(d, last), n.at(d, 0), n.at(d + 1, 0)), n.at(d, 0)
    there = AND(OR(REQ(d, first), D.has(d - 1)), OR(REQ(d, last), D.has(d + 1)))
    given = AND(ok, there, NOT(before.nan), NOT(after.nan), NOT(cur_x.nan), NOT(cur_n.nan))
    use = AND(given, RLE(12, hi.v), RLE(hi.v, 23), RLT(lo.v, hi.v), RLE(0, lo.v))
    v = [num(out.at(d, h)) for h in range(24)]
    cone = ENG.lemma('between two values', lambda a, b, c: IMP(AND(RLE(-1, c), RLE(c, 1)), AND(
        OR(RLE(a, RADD(mid(a, b), RMUL(half(a, b), c))), RLE(b, RADD(mid(a, b), RMUL(half(a, b), c)))),
        OR(RLE(RADD(mid(a, b), RMUL(half(a, b), c)), a), RLE(RADD(mid(a, b), RMUL(half(a, b), c)), b)))), 3, heavy=True)
    times = ENG.lemma('product with one', lambda r, c: AND(IMP(REQ(c, 1), REQ(RMUL(r, c), r)), IMP(REQ(c, -1), REQ(RMUL(r, c), core.RNEG(r)))), 2, heavy=True)
    always = use
    for h in range(24):
        use = AND(always, NOT(skip(h) if skip else False))
        ENG.have('hour %d is present' % h, IMP(use, NOT(v[h].nan)))
        c = cosine(h, lo, hi, night)
        in1 = AND(RLE(-1, c), RLE(c, 1))
        ENG.have('cosine %d within one' % h, in1)
        # before the time of the maximum the own minimum counts, then that of the next day;
        # before the time of the minimum the maximum of the previous day counts, then the own
        for k, (when, a, b) in enumerate(((AND(RLT(h, hi.v), RLT(h, lo.v)), cur_n, before), (AND(RLT(h, hi.v), NOT(RLT(h, lo.v))), cur_n, cur_x),
                                          (AND(NOT(RLT(h, hi.v)), NOT(RLT(h, lo.v))), after, cur_x))):
            a, b = a.v, b.v
            here = AND(use, when)
            form = IMP(here, REQ(v[h].v, RADD(mid(a, b), RMUL(half(a, b), c))))
            name = 'hour %d, case %d: mean of the extremes plus half their difference times the cosine' % (h, k)
            ENG.show(name, form, [], cosines_in(v[h].v, c), heavy=True)
            w = v[h].v if z3.is_expr(form) and not z3.is_true(form) else None
            ENG.derive('hour %d, case %d: within the extremes' % (h, k), IMP(here, AND(OR(RLE(a, v[h].v), RLE(b, v[h].v)), OR(RLE(v[h].v, a), RLE(v[h].v, b)))),
                       [form, in1, cone(a, b, c)], [w, c])
            if k == 2:
                top = IMP(AND(use, REQ(hi.v, h)), REQ(c, 1))
                ENG.have('cosine at the time of the maximum, %d' % h, top)
                ENG.derive('hour %d is at the maximum if assumed so' % h, IMP(AND(use, REQ(hi.v, h)), REQ(v[h].v, cur_x.v)), [form, top, times(half(a, b), c)], [w, c])
            if k == 1:
                at = lo.v if night else RSUB(hi.v, 12)
                for j in (1, 0):
                    # (without night-time modification the minimum is half a day before the maximum)
                    a, b = cur_n.v, (cur_x, before)[j].v
                    if j == 1:
                        here = AND(use, REQ(at, h), RLT(h, lo.v))
                        bottom = IMP(AND(use, REQ(at, h)), REQ(c, -1))
                        ENG.have('cosine at the time of the minimum, %d' % h, bottom)
                        form2 = IMP(AND(use, RLT(h, hi.v), RLT(h, lo.v)), REQ(v[h].v, RADD(mid(a, b), RMUL(half(a, b), c))))
                    else:
                        here = AND(use, REQ(at, h), NOT(RLT(h, lo.v)))
                        form2 = form
                    ENG.derive('hour %d is at the minimum if assumed so (%d)' % (h, j), IMP(here, REQ(v[h].v, cur_n.v)), [form2, bottom, times(half(a, b), c)], [w, c])


def cosines_in(*terms):
    """the cosines that occur in terms"""
    r, todo, seen = [], [t for t in terms if z3.is_expr(t)], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == 'f_cospi':
            r.append(x)
        else:
            todo.extend(x.children())
    return r


def mid(a, b):
    return RMUL(F(1, 2), RADD(a, b))


def half(a, b):
    return RMUL(F(1, 2), RSUB(b, a))


def cosine(h, lo, hi, night):
    """the cosine at hour h"""
    if not night:
        c = ENG.cos(SF(None, pim=RMUL(F(1, 12), RSUB(h, hi.v))))
        return c.v
    x = PI / (24 - (hi - lo)) * (24 - hi + h)
    if not core.isq((hi - lo).v):
        # x is pi at the time of the minimum
        y = z3.simplify((24 - (hi - lo)).v, som=False)
        i, y = ENG.inv(y), core.zreal(y)
        ENG.derive('half a turn at the minimum, %d' % h, IMP(AND(REQ(lo.v, h), RLT(0, (24 - (hi - lo)).v)), REQ(x.pim, 1)), [z3.Implies(y != 0, y * i == 1)], [i], heavy=True)
    a = ENG.cos(x)
    b = ENG.cos(PI * F(5, 4) + PI * F(3, 4) / (hi - lo) * (h - lo))
    c = ENG.cos(PI / (24 - (hi - lo)) * (h - hi))
    return core.choose(core.asbool(h <= lo), a, core.choose(core.asbool(h < hi), b, c)).v


def plain(mode, night):
    @item('sine, %s%s' % (mode, ' with night-time modification' if night else ''), FN, maxpaths=200)
    def f(L):
        m, D, df, sun, free, dl = setup(L, mode, False, night)
        out = returns(lambda: m.disaggregate_temperature(df, method='sine_min_max', min_max_time=mode, mod_nighttime=night, sun_times=sun, max_delta=dl))
        same_index('result', out.index, 24, D)
        d = day('cell')
        ENG.assume(D.has(d))
        lo, hi = locations(mode, free, dl, d)
        claim(out, df, D, d, D.has(d), lo, hi, night)
        ENG.prove('inputs unchanged', not ENG.frame_log)


def polar(mode, night):
    @item('sine with polar nights, %s%s' % (mode, ' with night-time modification' if night else ''), FN, maxpaths=200)
    def f(L):
        m, D, df, sun, free, dl = setup(L, mode, True, True)
        out = returns(lambda: m.disaggregate_temperature(df, method='sine_min_max', min_max_time=mode, mod_nighttime=night, sun_times=sun, max_delta=dl))
        same_index('result', out.index, 24, D)
        d = day('cell')
        ENG.assume(D.has(d))
        dark = lambda x: AND(D.has(x), RLT(sun.daylength.at(x, 0).v, 3))
        lo, hi = locations(mode, free, dl, d)
        # next to the dark the hours towards it are interpolated
        claim(out, df, D, d, NOT(dark(d)), lo, hi, night, lambda h: OR(AND(dark(d - 1), RLE(h, lo.v)), AND(dark(d + 1), RLT(hi.v, h))))
        ENG.prove('inputs unchanged', not ENG.frame_log)


def dark_days(mode, night):
    @item('polar nights, %s%s' % (mode, ' with night-time modification' if night else ''), FN, maxpaths=200)
    def f(L):
        m, D, df, sun, free, dl = setup(L, mode, True, True)
        out = returns(lambda: m.disaggregate_temperature(df, method='sine_min_max', min_max_time=mode, mod_nighttime=night, sun_times=sun, max_delta=dl))
        d = day('cell')
        # day and neighbours in the record, all extremes within [A, B]
        A, B = ENG.fresh('A'), ENG.fresh('B')
        for x in (d - 1, d, d + 1):
            ENG.assume(D.has(x))
            a, b = df.tmin.at(x, 0), df.tmax.at(x, 0)
            ENG.assume(AND(NOT(a.nan), NOT(b.nan), RLE(a.v, b.v), RLE(A, a.v), RLE(b.v, B)))
            loops.concern(x)
            free['usual'](z3.simplify(x))
        dark = lambda x: RLT(sun.daylength.at(z3.simplify(x), 0).v, 3)
        near = OR(dark(d - 1), dark(d), dark(d + 1))
        loc = {k: locations(mode, free, dl, z3.simplify(d + k)) for k in (-1, 0, 1)}
        ts = [v for k, v in ENG.cache.items() if isinstance(v, vec.Interpolation)]
        if len(ts) > 1:
            raise core.Unsupported('several interpolations')
        if not ts:
            ENG.prove('no polar night near the day', NOT(near), firm=False)
            return
        T, = ts
        within = lambda v: AND(RLE(A, v), RLE(v, B))
        # what is known before the interpolation
        known, cells, hours = {}, {}, {}

        def have(k, h, what, f):
            ENG.show('%+d days, hour %d: %s' % (k, h, what), f)
            known.setdefault((k, h), []).append(f)
        for k in (-1, 0, 1):
            x = z3.simplify(d + k)
            lo, hi = (t.v for t in loc[k])
            hours[k] = AND(RLE(0, lo), RLT(lo, hi), RLE(12, hi), RLE(hi, 23))
            ENG.show('%+d days: times of the extremes' % k, hours[k])
            for h in range(24):
                t = cells[k, h] = num(T.rd(x, h))
                there = T.axis.has(x, h)
                have(k, h, 'in the dark', IMP(dark(x), AND(there, NOT(t.nan), within(t.v)) if h in (6, 18) else AND(there, t.nan)))
                if k < 1:
                    have(k, h, 'before the dark', IMP(AND(NOT(dark(x)), dark(z3.simplify(x + 1))), AND(there, IMP(RLT(hi, h), t.nan), IMP(REQ(hi, h), AND(NOT(t.nan), within(t.v))))))
                if k > -1:
                    have(k, h, 'after the dark', IMP(AND(NOT(dark(x)), dark(z3.simplify(x - 1))), AND(there, IMP(RLT(h, lo), t.nan), IMP(REQ(lo, h), AND(NOT(t.nan), within(t.v))))))
        opaque = lambda k, h: [cells[k, h].v]
        # the last value before, the first value after
        prev, nxt, last = {}, {}, []
        for k, h in [(-1, h) for h in range(6, 24)] + [(0, h) for h in range(24)]:
            x = z3.simplify(d + k)
            lo, hi = (t.v for t in loc[k])
            (e, v, c), facts = T.look('before', x, h)
            own = AND(NOT(dark(x)), dark(z3.simplify(x + 1)), RLE(hi, h))
            when = OR(AND(dark(x), h >= 6), own) if k < 0 else OR(dark(x), own, AND(NOT(dark(x)), dark(z3.simplify(x - 1)), RLT(h, lo)))
            steps = AND(IMP(dark(x), RLE(c, h - 18 if h >= 18 else h - 6 if h >= 6 else h + 12)), IMP(own, RLE(c, h - 12)), IMP(NOT(dark(x)), RLE(c, h + 12)))
            prev[h] = IMP(when, AND(e, within(v), steps))
            ENG.derive('%+d days, hour %d: last value before' % (k, h), prev[h], list(hours.values()) + facts + known[k, h] + last, opaque(k, h))
            last = [prev[h]]
        last = []
        for k, h in [(1, h) for h in range(22, -1, -1)] + [(0, h) for h in range(23, -1, -1)]:
            x = z3.simplify(d + k)
            lo, hi = (t.v for t in loc[k])
            (e, v, c), facts = T.look('after', x, h)
            own = AND(NOT(dark(x)), dark(z3.simplify(x - 1)), RLE(h, lo))
            when = OR(AND(dark(x), h <= 18), own) if k > 0 else OR(dark(x), own, AND(NOT(dark(x)), dark(z3.simplify(x + 1)), RLT(hi, h)))
            nxt[h] = IMP(when, AND(e, within(v)))
            ENG.derive('%+d days, hour %d: first value after' % (k, h), nxt[h], list(hours.values()) + facts + known[k, h] + last, opaque(k, h))
            last = [nxt[h]]
        lo, hi = (t.v for t in loc[0])
        ext = []
        for h in range(24):
            t = T.cell(d, h)
            gap = OR(dark(d), AND(dark(z3.simplify(d - 1)), RLT(h, lo)), AND(dark(z3.simplify(d + 1)), RLT(hi, h)))
            R, N = T.f(d, core.zr(h)), T.g(d, core.zr(h))
            goal = IMP(AND(gap, cells[0, h].nan), AND(OR(N, within(R)), IMP(OR(dark(d), RLE(h, 11), RLT(hi, h)), NOT(N))))
            ENG.derive('hour %d: between its neighbours' % h, goal, [T.bound(d, h), prev[h], nxt[h], hours[0]] + known[0, h], opaque(0, h))
            o = num(out.at(d, h))
            here = IMP(near, AND(IFF(o.nan, t.nan), IMP(NOT(o.nan), REQ(o.v, t.v))))
            ENG.have('hour %d: result' % h, here, firm=False)
            ENG.prove('hour %d: within the extremes of the three days' % h, IMP(gap, AND(OR(o.nan, within(o.v)), IMP(dark(d), NOT(o.nan)))), firm=False)
            if h in (6, 18):
                ext.append(o.v)
        a, b = df.tmin.at(d, 0).v, df.tmax.at(d, 0).v
        ENG.prove('extremes at 6 and 18 h in the dark', IMP(dark(d), OR(AND(REQ(ext[0], a), REQ(ext[1], b)), AND(REQ(ext[0], b), REQ(ext[1], a)))), firm=False)
        for h in range(24):
            o = num(out.at(d, h))
            ENG.prove('hour %d is at the minimum after the dark if assumed so' % h, IMP(AND(NOT(dark(d)), dark(d - 1), REQ(lo, h)), AND(NOT(o.nan), REQ(o.v, a))), firm=False)


# (the long ones first)
dark_days('fix', False)
for mode in ('fix', 'sun_loc', 'sun_loc_shift'):
    polar(mode, False)
for night in (False, True):
    for mode in ('fix', 'sun_loc', 'sun_loc_shift'):
        plain(mode, night)
