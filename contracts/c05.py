"""C05: precipitation after the pattern of a master station."""
from contracts.util import *
from contracts.util import superset
from pyvc.core import F, RADD, REQ, RITE, RLE, RLT, RMUL

PREC = 'melodist.precipitation.'
FN = [PREC + 'disagg_prec', PREC + 'precip_master_station', 'melodist.util.util.hourly_index']


def master(zerodiv):
    @item('master station, zerodiv=%r' % zerodiv, FN)
    def f(L):
        D = days()
        d = day()
        ENG.assume(D.has(d))
        p = series(Axis(1, D), 'precip', lo=0)
        m = series(Axis(24, superset(D)), 'master', lo=0)
        out = returns(lambda: L.package().disagg_prec(p, method='masterstation', hourly_data_obs=m, zerodiv=zerodiv))
        same_index('hours', out.index, 24, D)
        o = num(p.at(d, 0))
        hs = [num(m.at(d, h)) for h in range(24)]
        tot = vec.total_of([RITE(x.nan, 0, x.v) for x in hs])
        w = ENG.inv(tot)
        wet = RLT(0, tot)
        gs = []
        for h in range(24):
            g = num(out.at(d, h))
            gs.append(g)
            ENG.have('hour %02d is the share of the master station' % h, IMP(wet, AND(
                IFF(g.nan, OR(o.nan, hs[h].nan)), IMP(NOT(g.nan), REQ(g.v, RMUL(RMUL(hs[h].v, w), o.v))))), firm=False)
            ENG.prove('hour %02d of a day without rain at the master station' % h,
                      IMP(NOT(wet), eq(g, o / 24 if zerodiv == 'uniform' else SF(0))), firm=False)
        part = [RITE(x.nan, 0, x.v) for x in hs]
        known = AND(wet, NOT(o.nan))
        got = [RITE(g.nan, 0, g.v) for g in gs]
        ts = [RMUL(RMUL(a, w), o.v) for a in part]
        hyps = []
        for h in range(24):
            hyps.append(IMP(known, REQ(got[h], ts[h])))
            ENG.have('hour %02d: share in the total' % h, hyps[-1], firm=False)
        one = IMP(wet, REQ(RMUL(tot, w), 1))
        ENG.have('the reciprocal of the total of the master station', one, heavy=True)
        ENG.derive('the shares sum to the daily total', IMP(wet, REQ(vec.total_of(ts), o.v)), [one], part + [w], heavy=True)
        ENG.derive('the hours sum to the daily total (day with rain at the master station)', IMP(known, REQ(vec.total_of(got), o.v)),
                   hyps + [IMP(wet, REQ(vec.total_of(ts), o.v))], [wet] + ts + got)
        if zerodiv == 'uniform':
            hyps = []
            for h in range(24):
                hyps.append(IMP(AND(NOT(wet), NOT(o.nan)), REQ(got[h], RMUL(F(1, 24), o.v))))
                ENG.have('hour %02d: uniform share' % h, hyps[-1], firm=False)
            ENG.derive('the hours sum to the daily total (day without rain at the master station)',
                       IMP(AND(NOT(wet), NOT(o.nan)), REQ(vec.total_of(got), o.v)), hyps, [wet] + got)
        ENG.prove('inputs unchanged', not ENG.frame_log)
        ENG.prove('deterministic', ENG.random_used == 0)
    return f


master('uniform')
master('zero')
