"""C19: mean daily courses and categorical humidity means."""
from contracts.util import *
from contracts.util import hourly
from pyvc.axis import month
from pyvc.core import F, RADD, REQ, RITE, RLE, RLT, RMUL, RSUB
from pyvc.tables import Course, KeyedAgg
from pyvc.vec import NDArr

FN = ['melodist.util.util.calculate_mean_daily_course_by_month']
FH = ['melodist.humidity.calculate_month_hour_precip_mean']


def expected(s):
    """the mean over exactly the observations of a month and hour"""
    return KeyedAgg(s, [NDArr(s.axis, lambda d, h: SF(month(d))), NDArr(s.axis, lambda d, h: SF(h))], 'mean')


def course(L, normalize):
    D = days()
    s = series(hourly(D), 'temp')
    spec = expected(s)
    out = returns(lambda: L.package().util.calculate_mean_daily_course_by_month(s, normalize=normalize))
    if not isinstance(out, Course) or out.columns.levels != 1:
        raise core.Unsupported('not a table of months and hours')
    m = ENG.fresh('month', 'I')
    ENG.assume(AND(RLE(1, m), RLE(m, 12)))
    return out, m, [spec.value(m, h) for h in range(24)]


def end():
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)


@item('mean course', FN)
def plain(L):
    out, m, mean = course(L, False)
    for h in range(24):
        ENG.prove('hour %02d is the mean of the observations of month and hour' % h, eq(out.fn(m, h), mean[h]), firm=False)
    end()


@item('normalised mean course', FN)
def normalised(L):
    out, m, mean = course(L, True)
    lo = vec.agg_cells([(True, x) for x in mean], 'min')
    hi = vec.agg_cells([(True, x) for x in mean], 'max')
    varies = AND(NOT(lo.nan), RLT(lo.v, hi.v))
    w = ENG.inv(RSUB(hi.v, lo.v))

    def order(x, y, lo, hi):
        a, b = (RMUL(RSUB(t, lo), ENG.inv(RSUB(hi, lo))) for t in (x, y))
        return IMP(AND(RLT(lo, hi), RLE(lo, x), RLE(x, hi), RLE(lo, y), RLE(y, hi)), AND(
            RLE(0, a), RLE(a, 1), IFF(RLE(x, y), RLE(a, b)), IFF(REQ(x, lo), REQ(a, 0)), IFF(REQ(x, hi), REQ(a, 1))))
    scaled = ENG.lemma('scaling to 0..1 keeps the order', order, 4, heavy=True)
    gs, between, scaling = [], [], []
    for h in range(24):
        g, x = num(out.fn(m, h)), mean[h]
        gs.append(g)
        ENG.show('hour %02d is missing iff there is no observation' % h, IMP(varies, IFF(g.nan, x.nan)), [], [lo.v, hi.v, lo.nan])
        between.append(IMP(NOT(x.nan), AND(RLE(lo.v, x.v), RLE(x.v, hi.v))))
        ENG.have('hour %02d: lies between the extremes of the course' % h, between[-1], firm=False)
        scaling.append(IMP(AND(varies, NOT(x.nan)), AND(NOT(g.nan), REQ(g.v, RMUL(RSUB(x.v, lo.v), w)))))
        ENG.show('hour %02d is scaled by the range of the course' % h, scaling[-1], [], [lo.v, hi.v, lo.nan])
    for h in range(24):
        g, x = gs[h], mean[h]
        hyps, atoms = [scaled(x.v, x.v, lo.v, hi.v), between[h], scaling[h]], [lo.v, hi.v, varies, g.v, RMUL(RSUB(x.v, lo.v), w)]
        ENG.show('hour %02d lies within 0..1' % h, IMP(AND(varies, NOT(x.nan)), AND(RLE(0, g.v), RLE(g.v, 1))), hyps, atoms)
        ENG.show('hour %02d is 0 at the minimum and 1 at the maximum of the course' % h, IMP(AND(varies, NOT(x.nan)), AND(
            IFF(REQ(x.v, lo.v), REQ(g.v, 0)), IFF(REQ(x.v, hi.v), REQ(g.v, 1)))), hyps, atoms)
    for a in range(1, 24):
        x = mean[a]
        goals, hyps, atoms = [], [between[a], scaling[a]], [lo.v, hi.v, varies, gs[a].v, RMUL(RSUB(x.v, lo.v), w)]
        for b in range(a):
            y = mean[b]
            goals.append(IMP(AND(varies, NOT(x.nan), NOT(y.nan)), IFF(RLE(x.v, y.v), RLE(gs[a].v, gs[b].v))))
            hyps += [scaled(x.v, y.v, lo.v, hi.v), between[b], scaling[b]]
            atoms += [gs[b].v, RMUL(RSUB(y.v, lo.v), w)]
        ENG.derive('hour %02d keeps its order with the earlier hours' % a, AND(*goals), hyps, atoms)
    for v in (0, 1):
        ENG.prove('some hour is %d' % v, IMP(varies, OR(*[AND(NOT(g.nan), REQ(g.v, v)) for g in gs])), firm=False)
    end()


@item('humidity means by month, hour and wet or dry day', FH)
def humidity(L):
    D = days()
    ax = hourly(D)
    f = frame(ax, ['hum', ('precip', dict(lo=0))])

    def wet(d, h):
        xs = [(ax.has(d, t), num(f['precip'].at(d, t))) for t in range(24)]
        return core.SBool(core.zb(RLT(0, vec.total_of([RITE(AND(p, NOT(x.nan)), x.v, 0) for p, x in xs]))))
    spec = KeyedAgg(f['hum'], [NDArr(ax, lambda d, h: SF(month(d))), NDArr(ax, lambda d, h: SF(h)), NDArr(ax, wet)], 'mean')
    out = returns(lambda: L.package().calculate_month_hour_precip_mean(f))
    if not isinstance(out, KeyedAgg):
        raise core.Unsupported('not a table of months, hours and classes')
    m = ENG.fresh('month', 'I')
    for h in range(24):
        for w in (False, True):
            ENG.prove('hour %02d, %s days: mean of the observations of the class' % (h, 'wet' if w else 'dry'), eq(out.value(m, h, w), spec.value(m, h, w)), firm=False)
    end()
