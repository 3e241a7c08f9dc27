"""C09: mean-course temperature methods."""
import z3
from contracts.util import *
from pyvc.core import RADD, REQ, RLE, RMUL, RSUB, SF, zr
from pyvc.tables import Course

FN = ['melodist.temperature.disaggregate_temperature', 'melodist.util.util.hourly_index']
MC = z3.Function('mean_course', z3.IntSort(), z3.IntSort(), z3.RealSort())
HMIN = z3.Function('hour_of_course_minimum', z3.IntSort(), z3.IntSort())
HMAX = z3.Function('hour_of_course_maximum', z3.IntSort(), z3.IntSort())


def course(normalised):
    """an arbitrary table month x hour; normalised: within 0..1, reaching 0 and 1 in each month"""
    def fn(m, h):
        m = zr(m)
        t = MC(m, zr(h))
        if normalised:
            ENG.fact(t >= 0)
            ENG.fact(t <= 1)
            for H, v in ((HMIN, 0), (HMAX, 1)):
                ENG.fact(z3.And(H(m) >= 0, H(m) < 24))
                ENG.fact(z3.Implies(H(m) == zr(h), t == v))
        return SF(t)
    return Course(fn, frozen='mean_course')


COLS = ['tmin', 'tmax', 'temp']


def setup():
    D = days()
    f = frame(Axis(1, D), COLS)
    d = day()
    ENG.assume(D.has(d))
    return D, f, d, {c: values(c)(d) for c in COLS}


@item('mean_course_min_max', FN)
def minmax(L):
    D, f, d, v = setup()
    mc = course(True)
    out = returns(lambda: L.package().disaggregate_temperature(f, method='mean_course_min_max', mean_course=mc))
    same_index('hours', out.index, 24, D)
    m = axis.month(d)
    tmin, tmax = v['tmin'], v['tmax']
    known = AND(NOT(tmin.nan), NOT(tmax.nan))
    for h in range(24):
        g = num(out.at(d, h))
        ENG.prove('hour %02d present iff the extremes are' % h, IFF(NOT(g.nan), known))
        ENG.prove('hour %02d is the extreme where the course of the month is' % h, IMP(known, AND(
            IMP(HMIN(m) == h, REQ(g.v, tmin.v)), IMP(HMAX(m) == h, REQ(g.v, tmax.v)))))
        ENG.prove('hour %02d is within the daily range' % h, IMP(AND(known, RLE(tmin.v, tmax.v)), AND(RLE(tmin.v, g.v), RLE(g.v, tmax.v))), firm=False)
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)


@item('mean_course_mean', FN)
def mean(L):
    D, f, d, v = setup()
    mc = course(False)
    out = returns(lambda: L.package().disaggregate_temperature(f, method='mean_course_mean', mean_course=mc))
    same_index('hours', out.index, 24, D)
    m = axis.month(d)
    known = AND(*[NOT(x.nan) for x in v.values()])
    cs = [MC(m, z3.IntVal(h)) for h in range(24)]
    mean = z3.Sum(cs) / 24
    dtr = RSUB(v['tmax'].v, v['tmin'].v)
    dev = []
    for h in range(24):
        g = num(out.at(d, h))
        ENG.prove('hour %02d present iff mean and extremes are' % h, IFF(NOT(g.nan), known))
        ENG.prove('hour %02d deviates by the range times the deviation of the course of the month' % h,
                  IMP(known, REQ(g.v, RADD(v['temp'].v, RMUL(dtr, cs[h] - mean)))), firm=False)
        dev.append(cs[h] - mean)
    ENG.have('deviations of the course sum to zero', z3.Sum(dev) == 0)
    S = ENG.fresh('sumdev')
    ENG.prove('hours average to the daily mean (sum of mean + range * deviation)',
              IMP(S == 0, REQ(RADD(RMUL(24, v['temp'].v), RMUL(dtr, S)), RMUL(24, v['temp'].v))), heavy=True)
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)
