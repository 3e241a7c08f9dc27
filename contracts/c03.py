"""C03: the cascade model keeps the daily totals (5-minute values of a gap-free record)."""
from contracts.casc import statistics
from contracts.util import *
from pyvc.core import REQ, RLE

PREC = 'melodist.precipitation.'
FN = [PREC + 'disagg_prec_cascade', PREC + 'sub_level_index']

# values of a level are known by their block sums only, so nothing here can be refuted by the verifier alone

def cascade(kind, level):
    @item('cascade, level %d, %s' % (level, kind), FN, budget=600)
    def f(L):
        D = days(contiguous=True)
        ENG.fact(D.n >= 2)
        d = day()
        ENG.assume(D.has(d))
        p = series(Axis(1, D), 'precip', lo=0)
        opts = statistics(L, 's', level) if kind == 'one set of statistics' else [statistics(L, 's%d' % i, level) for i in range(level)]
        fn = L.load('melodist.precipitation').disagg_prec_cascade
        out = returns(lambda: fn(p, opts, hourly=False, level=level))
        same_index('5-minute steps', out.index, 288, D)
        o = num(p.at(d, 0))
        vs = [num(out.at(d, h)) for h in range(288)]
        for h in range(288):
            ENG.prove('value %03d is missing if and only if the day is' % h, IFF(vs[h].nan, o.nan), firm=False)
            ENG.prove('value %03d is not negative' % h, IMP(NOT(o.nan), AND(NOT(vs[h].pinf), NOT(vs[h].ninf), RLE(0, vs[h].v))), firm=False)
        ENG.prove('the values sum to the daily total', IMP(NOT(o.nan), REQ(vec.total_of([x.v for x in vs]), o.v)), firm=False)
        ENG.prove('inputs unchanged', not ENG.frame_log)
    return f


for level in (9, 10, 11):
    cascade('one set of statistics', level)
    cascade('one set of statistics for each level', level)
