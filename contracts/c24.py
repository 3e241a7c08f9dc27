"""C24: truncation to full days."""
from contracts.util import *
from pyvc.core import RADD, REQ, RITE, RLE, RLT, RSUB

FN = ['melodist.util.util.drop_incomplete_days']


@item('drop_incomplete_days', FN)
def full_days(L):
    n = ENG.fresh('rows', 'I')
    ENG.fact(n >= 0)
    ts = stamps()
    t = table(n, ['x', 'y'], ts=ts)
    shift = ENG.fresh('shift', 'I')
    out = returns(lambda: L.load('melodist.util.util').drop_incomplete_days(t, shift=SF(shift)))
    if not isinstance(out, Frame) or list(out.cols) != ['x', 'y']:
        ENG.prove('a table with the same columns', False)
        return
    first = RITE(AND(RLE(0, shift), RLE(shift, 23)), shift, 0)
    last = RITE(REQ(first, 0), 23, RSUB(first, 1))

    def on(q, h):
        x = ts(q)
        return AND(RLE(0, q), RLT(q, n), REQ(x.sec / 3600, h), REQ(x.sec / 60 % 60, 0))
    q, i, j = [ENG.fresh(x, 'I') for x in ('row', 'start', 'end')]
    stops = ENG.cache.get('breaks', [])
    for b, instance, cond in stops:
        for p in (q, i, j):
            instance(p)
            instance(RSUB(RSUB(n, 1), p))
    kept = out.axis.has(q)
    ENG.prove('rows between a row at the first and a row at the last hour are kept',
              IMP(AND(on(i, first), RLE(i, q), RLE(q, j), on(j, last)), kept), firm=False)  # (instances of the loop summaries: incomplete)
    ends = [w for b, _, _ in stops for w in (b, RSUB(RSUB(n, 1), b))]
    ENG.prove('a row is kept only after a row at the first hour', IMP(kept, OR(*[AND(RLE(w, q), on(w, first)) for w in ends])), firm=False)
    ENG.prove('a row is kept only before a row at the last hour', IMP(kept, OR(*[AND(RLE(q, w), on(w, last)) for w in ends])), firm=False)
    a, b = out.index.ts(q), ts(q)
    ENG.prove('time stamps unchanged', IMP(kept, AND(REQ(a.d, b.d), REQ(a.sec, b.sec))))
    for c in ('x', 'y'):
        ENG.prove('values of %s unchanged' % c, IMP(kept, eq(out.cols[c].at(q), t.cols[c].at(q))))
    ENG.prove('input unchanged', not ENG.frame_log)
