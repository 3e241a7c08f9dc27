"""C04: derived cascade statistics are probabilities.

aggregate_precipitation is verified against its contract (any table of at least four rows in,
probability tables and half as many rows out), and build_casc and
StationStatistics.calc_precipitation_stats against that contract."""
import numpy as rnp

from contracts.casc import table as stat_table
from contracts.util import *
from pyvc.carr import CArr
from pyvc.core import F, RADD, REQ, RLE, RLT, RMUL, RSUB, Unsupported

PREC = 'melodist.precipitation.'
STATS = 'melodist.stationstatistics.StationStatistics.'
TOL = F(1, 10**6)


def sums(c, cells=None):
    """[(name, [entries of one distribution])]"""
    r = []
    for i, j in cells or rnp.ndindex((2, 4)):
        r.append(('branching %d,%d' % (i, j), [num(t.a[i, j]) for t in (c.p01, c.p10, c.pxx)]))
        r.append(('weights %d,%d' % (i, j), [num(c.wxx.a[k, i, j]) for k in range(7)]))
    return r


def bounded(name, es, tot):
    """from the entries not being negative and their sum"""
    for k, e in enumerate(es):
        ENG.derive('%s: entry %d is at most 1' % (name, k), RLE(e.v, RADD(1, TOL)),
                   [RLE(0, x.v) for x in es] + [RLE(tot, RADD(1, TOL))], [x.v for x in es])


def established(name, goals, **kw):
    """prove the conjunction, then use the conjuncts"""
    goals = [g for g in goals if g is not True]
    if ENG.prove(name, AND(*goals), firm=False, **kw):
        for g in goals:
            ENG.fact(g)


def level(cells):
    @item('one level, classes ' + ' '.join('%d,%d' % c for c in cells), [PREC + 'aggregate_precipitation'], budget=600)
    def f(L):
        n = ENG.fresh('rows', 'I')
        ENG.fact(n >= 4)
        t = table(n, ['precip'], nan=False, lo=0)
        perc = parameter('percentile')
        c, v = returns(lambda: L.load('melodist.precipitation').aggregate_precipitation(t, percentile=perc))
        if cells[0] == (0, 0):
            q = ENG.fresh('row', 'I')
            ENG.assume(v.axis.has(q))
            x = num(v.cols['precip'].at(q))
            ENG.prove('aggregated values are known and not negative', AND(x.fin, RLE(0, x.v)), firm=False)
            m = core.zr(num(len_of(v)).v)
            ENG.prove('half as many rows', AND(2 * m <= n, n < 2 * m + 2), firm=False)
            ENG.prove('input unchanged', not ENG.frame_log)
        for name, es in sums(c, cells):
            established(name + ': entries are known', [e.fin for e in es])
            established(name + ': entries are not negative', [RLE(0, e.v) for e in es], heavy=True)
            tot = vec.total_of([e.v for e in es])
            established(name + ': sum is 1', [RLE(RSUB(1, TOL), tot), RLE(tot, RADD(1, TOL))])
            bounded(name, es, tot)


def len_of(v):
    return v.axis.n


ROWS = [[(i, j) for j in range(4)] for i in range(2)]
for cells in ROWS:
    level(cells)


class Level:
    """what one call of aggregate_precipitation returned"""
    def __init__(self, c, n):
        self.c, self.n = c, n


def aggregate(L, calls, cells):
    """the contract of aggregate_precipitation"""
    def stub(vec_data, hourly=True, percentile=50):
        k = len(calls)
        col = vec_data.cols['precip']
        if isinstance(vec_data.axis, axis.PosAxis):
            q = ENG.fresh('row', 'I')
            x, there = num(col.at(q)), vec_data.axis.has(q)
            ENG.prove('level %d: at least four rows given' % k, 4 <= core.zr(vec_data.axis.n), firm=False)
            n = vec_data.axis.n
        else:
            d = day('obs')
            x, there = num(col.at(d, 5)), vec_data.axis.has(d, 5)
            n = ENG.fresh('rows', 'I')
            ENG.fact(n >= 64)
        ENG.prove('level %d: values given are known and not negative' % k, IMP(there, AND(x.fin, RLE(0, x.v))), firm=False)
        c = L.load('melodist.cascade').CascadeStatistics()
        for key, shape in (('p01', (2, 4)), ('p10', (2, 4)), ('pxx', (2, 4)), ('wxx', (7, 2, 4))):
            setattr(c, key, CArr(stat_table('%s_%d' % (key, k), shape).a))
        c.threshold = CArr(stat_table('thr_%d' % k, (1,)).a)
        c.percentile = percentile
        for name, es in sums(c, cells):
            tot = vec.total_of([e.v for e in es])
            for f in [RLE(0, e.v) for e in es] + [RLE(RSUB(1, TOL), tot), RLE(tot, RADD(1, TOL))]:
                ENG.fact(f)
        m = ENG.fresh('half', 'I')
        ENG.fact(AND(2 * m <= core.zr(n), core.zr(n) < 2 * m + 2))
        out = table(m, [('precip')], frozen=False, nan=False, lo=0)
        calls.append(Level(c, m))
        calls[-1].entries = [es for _, es in sums(c, cells)]
        return c, out
    if L.patch(PREC + 'aggregate_precipitation', stub) is None:
        raise Unsupported('aggregate_precipitation not found')


def build(what, avg, seasons, cells, via):
    @item('%s, %s, %d season%s, classes %s' % (via, 'averaged' if avg else 'per level', seasons, 's' * (seasons > 1), ' '.join('%d,%d' % c for c in cells)),
          [what], budget=300)
    def f(L):
        calls = []
        aggregate(L, calls, cells)
        D = days()
        obs = frame(hourly(D), ['precip'], lo=0)
        months = {1: None, 2: [[4, 5, 6, 7, 8, 9], [10, 11, 12, 1, 2, 3]]}[seasons]
        perc = parameter('percentile')
        if via == 'build_casc':
            r = returns(lambda: L.load('melodist.precipitation').build_casc(obs, months=months, avg_stats=avg, percentile=perc))
        else:
            s = L.load('melodist.stationstatistics').StationStatistics(data=obs)
            returns(lambda: s.calc_precipitation_stats(months=months, avg_stats=avg, percentile=perc))
            r = s.precip.stats
        ENG.prove('observations unchanged', not ENG.frame_log)
        ENG.prove('one result per season', len(r) == seasons)
        per = len(calls) // seasons
        for k, c in enumerate(r):
            lv = calls[k * per:(k + 1) * per]
            if avg:
                averaged('season %d' % k, c, lv, cells)
            else:
                ENG.prove('season %d: one result per level' % k, len(c) == 5)
                for i, x in enumerate(c):
                    for name, es in sums(x, cells):
                        tot = vec.total_of([e.v for e in es])
                        name = 'season %d, level %d, %s' % (k, i, name)
                        established(name + ': sum is 1', [RLE(RSUB(1, TOL), tot), RLE(tot, RADD(1, TOL))])
                        established(name + ': entries are known and not negative', [AND(e.fin, RLE(0, e.v)) for e in es])


def averaged(name, c, lv, cells):
    lo, hi = RSUB(1, TOL), RADD(1, TOL)
    ns = [z3.ToReal(x.n) for x in lv]
    count = vec.total_of(ns)
    q = ENG.inv(count)
    lemmas = {}
    for m in (3, 7):
        lemmas[m] = (
            ENG.lemma('%s: a distribution of %d times a number' % (name, m), lambda n, *a: IMP(
                AND(RLE(0, n), *[RLE(0, x) for x in a], RLE(lo, vec.total_of(a)), RLE(vec.total_of(a), hi)),
                AND(*[RLE(0, RMUL(n, x)) for x in a], RLE(RMUL(n, lo), vec.total_of([RMUL(n, x) for x in a])),
                    RLE(vec.total_of([RMUL(n, x) for x in a]), RMUL(n, hi)))), m + 1, heavy=True, firm=False),
            ENG.lemma('%s: sums of %d over their number' % (name, m), lambda n, p, *a: IMP(
                AND(RLT(0, n), RLT(0, p), REQ(RMUL(n, p), 1), *[RLE(0, x) for x in a], RLE(RMUL(n, lo), vec.total_of(a)), RLE(vec.total_of(a), RMUL(n, hi))),
                AND(*[RLE(0, RMUL(p, x)) for x in a], RLE(lo, vec.total_of([RMUL(p, x) for x in a])),
                    RLE(vec.total_of([RMUL(p, x) for x in a]), hi))), m + 2, heavy=True, firm=False))
    commute = ENG.lemma(name + ': products commute', lambda a, b: core.MUL(core.zreal(a), core.zreal(b)) == core.MUL(core.zreal(b), core.zreal(a)), 2, heavy=True, firm=False)
    ENG.have(name + ': rows counted', AND(RLT(0, count), *[RLT(0, n) for n in ns]), firm=False)
    ENG.have(name + ': share of one row', AND(RLT(0, q), REQ(RMUL(count, q), 1)), heavy=True, firm=False)
    for k, (nm, es) in enumerate(sums(c, cells)):
        nm = name + ', ' + nm
        of, over = lemmas[len(es)]
        for x, n in zip(lv, ns):
            of(n, *[e.v for e in x.entries[k]])
        parts = [vec.total_of([RMUL(n, x.entries[k][i].v) for x, n in zip(lv, ns)]) for i in range(len(es))]
        over(count, q, *parts)
        for i, e in enumerate(es):
            swap = commute(q, parts[i])
            ENG.derive('%s: entry %d is the mean over the levels' % (nm, i), AND(e.fin, REQ(e.v, RMUL(q, parts[i]))), [swap])
            ENG.have('%s: entry %d is not negative' % (nm, i), RLE(0, e.v), firm=False)
        tot = vec.total_of([e.v for e in es])
        established(nm + ': sum is 1', [RLE(lo, tot), RLE(tot, hi)])
        bounded(nm, es, tot)


for cells in ROWS:
    build(PREC + 'build_casc', True, 1, cells, 'build_casc')
build(PREC + 'build_casc', False, 1, ROWS[0] + ROWS[1], 'build_casc')
for avg in (True, False):
    build(STATS + 'calc_precipitation_stats', avg, 2, [(0, 0), (1, 3)], 'calc_precipitation_stats')
