"""C02: the cascade model keeps the daily totals (hourly values)."""
from contracts.casc import statistics
from contracts.util import *
from pyvc.core import REQ, RLE

PREC = 'melodist.precipitation.'
FN = [PREC + 'disagg_prec', PREC + 'disagg_prec_cascade', 'melodist.util.util.hourly_index']

# values of a level are known by their block sums only, so nothing here can be refuted by the verifier alone

def cascade(kind):
    @item('cascade, ' + kind, FN, budget=600)
    def f(L):
        D = days()
        ENG.fact(D.n >= 2)
        d = day()
        ENG.assume(D.has(d))
        p = series(Axis(1, D), 'precip', lo=0)
        opts = statistics(L, 's') if kind == 'one set of statistics' else [statistics(L, 's%d' % i) for i in range(5)]
        out = returns(lambda: L.package().disagg_prec(p, method='cascade', cascade_options=opts))
        same_index('hours', out.index, 24, D)
        o = num(p.at(d, 0))
        hs = [num(out.at(d, h)) for h in range(24)]
        for h in range(24):
            ENG.prove('hour %02d is missing if and only if the day is' % h, IFF(hs[h].nan, o.nan), firm=False)
            ENG.prove('hour %02d is not negative' % h, IMP(NOT(o.nan), AND(NOT(hs[h].pinf), NOT(hs[h].ninf), RLE(0, hs[h].v))), firm=False)
        ENG.prove('the hours sum to the daily total', IMP(NOT(o.nan), REQ(vec.total_of([x.v for x in hs]), o.v)), firm=False)
        ENG.prove('inputs unchanged', not ENG.frame_log)
    return f


cascade('one set of statistics')
cascade('one set of statistics for each level')
