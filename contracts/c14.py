"""C14: disaggregated radiation keeps the daily mean."""
from contracts.util import *
from contracts.util import parameter
from pyvc.axis import RangeDays
from pyvc.core import F, RADD, REQ, RITE, RLE, RLT, RMUL, RSUB
from pyvc.tables import Course

FN = ['melodist.radiation.disaggregate_radiation', 'melodist.util.util.hourly_index']
TAB = z3.Function('mean_radiation', z3.IntSort(), z3.IntSort(), z3.RealSort())


def relation(out, d, pot, G):
    """the 24 hourly values of day d against the potential radiation and the daily value"""
    P = [num(p).v for p in pot]
    tot = vec.total_of(P)
    Pm = RMUL(F(1, 24), tot)
    ENG.prove('day without potential radiation', IMP(AND(REQ(tot, 0), NOT(G.nan)), AND(*[eq(out.at(d, h), SF(0)) for h in range(24)])), firm=False)
    share, ts, gs = [], [], []
    w = ENG.inv(Pm)
    sun = AND(RLT(0, tot), NOT(G.nan), RLE(0, G.v))
    for h in range(24):
        g = num(out.at(d, h))
        ENG.prove('hour %02d missing iff the daily value is' % h, IFF(g.nan, G.nan), firm=False)
        r = RMUL(P[h], w)
        t = RMUL(r, G.v)
        share.append(r), ts.append(t), gs.append(g.v)
        ENG.have('hour %02d is proportional to potential radiation, values below 0.01 are 0' % h,
                 IMP(sun, AND(NOT(g.nan), NOT(g.pinf), REQ(g.v, RITE(RLT(t, F('0.01')), 0, t)))), firm=False)
        ENG.have('hour %02d: shares are not negative' % h, IMP(sun, AND(RLE(0, r), RLE(0, t))), firm=False)
        ENG.prove('hour %02d is not negative' % h, IMP(AND(NOT(G.nan), RLE(0, G.v)), RLE(0, g.v)), firm=False)
        ENG.prove('hour %02d is zero without potential radiation' % h, IMP(AND(NOT(G.nan), REQ(P[h], 0)), REQ(g.v, 0)), firm=False)
        ENG.have('hour %02d loses less than 0.01' % h, IMP(sun, AND(RLE(g.v, t), RLT(RSUB(t, g.v), F('0.01')))), firm=False)
    one = ENG.have('the reciprocal of the daily potential radiation', IMP(RLT(0, tot), REQ(RMUL(tot, w), 24)), heavy=True)
    ENG.derive('the shares sum to 24', IMP(RLT(0, tot), REQ(vec.total_of(share), 24)), [IMP(RLT(0, tot), REQ(RMUL(tot, w), 24))], heavy=True)
    ENG.derive('the proportional values sum to 24 times the daily value', IMP(RLT(0, tot), REQ(vec.total_of(ts), RMUL(24, G.v))),
               [IMP(RLT(0, tot), REQ(RMUL(tot, w), 24))], heavy=True)
    hyps = [IMP(sun, AND(RLE(g, t), RLT(RSUB(t, g), F('0.01')))) for g, t in zip(gs, ts)] + [IMP(RLT(0, tot), REQ(vec.total_of(ts), RMUL(24, G.v)))]
    mean = RMUL(F(1, 24), vec.total_of(gs))
    ENG.derive('the hours average to the daily value within 0.01', IMP(sun, AND(RLE(mean, G.v), RLT(RSUB(G.v, mean), F('0.01')))), hyps,
               [t for t in gs + ts])
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)


def pot_rad(name, whole):
    @item(name, FN)
    def f(L):
        D = days()
        d = day()
        ENG.assume(D.has(d))
        P = RangeDays(D.first, D.last) if whole else D
        pot = series(Axis(24, P), 'pot_rad', nan=False, lo=0)
        out = returns(lambda: L.package().disaggregate_radiation(frame(Axis(1, D), ['glob']), pot_rad=pot))
        same_index('hours', out.index, 24, P)
        relation(out, d, [pot.at(d, h) for h in range(24)], values('glob')(d))


pot_rad('potential radiation of the given days', False)
pot_rad('potential radiation of the whole period', True)


@item('mean course', FN)
def course(L):
    D = days()
    d = day()
    ENG.assume(D.has(d))

    def fn(m, h):
        t = TAB(core.zr(m), core.zr(h))
        ENG.fact(t >= 0)
        return SF(t)
    out = returns(lambda: L.package().disaggregate_radiation(frame(Axis(1, D), ['glob']), method='mean_course', mean_course=Course(fn, frozen='mean_course')))
    same_index('hours', out.index, 24, D)
    relation(out, d, [fn(axis.month(d), h) for h in range(24)], values('glob')(d))
