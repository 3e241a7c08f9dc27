"""C23: the number of gaps is the number of irregular time steps."""
from contracts.util import *
from pyvc.core import RADD, REQ, RITE, RLE, RLT, RMUL, RSUB

FN = ['melodist.util.util.detect_gaps']


def gaps(print_all, verbose):
    @item('detect_gaps, print_all=%s, verbose=%s' % (print_all, verbose), FN)
    def f(L):
        n = ENG.fresh('rows', 'I')
        ENG.fact(n >= 0)
        ts = stamps()
        t = table(n, ['x'], ts=ts)
        step = parameter('timestep')
        most = SF(ENG.fresh('print_max', 'I'))
        got = returns(lambda: L.load('melodist.util.util').detect_gaps(t, step, print_all=print_all, print_max=most, verbose=verbose))
        g = num(got)
        sums = [x for k, x in ENG.cache.items() if isinstance(k, tuple) and k[0] == 'sum' and not core.isq(g.v) and k[1] in core.syms(g.v)]
        if len(sums) != 1:
            raise core.Unsupported('the result is not one count')
        c, delta, i, N = sums[0]
        ENG.prove('the result is the count', AND(g.plain, REQ(g.v, c)), firm=False)
        inside = AND(RLE(0, i), RLT(i, N))

        def counts(p):
            """iteration i adds one exactly if the step from row p - 1 to row p is irregular"""
            a, b = ts(p), ts(RSUB(p, 1))
            dist = RADD(RMUL(86400, RSUB(a.d, b.d)), RSUB(a.sec, b.sec))
            return IMP(inside, REQ(delta, RITE(AND(RLE(1, p), RLT(p, n), NOT(REQ(dist, step.v))), 1, 0)))
        # pairs of rows counted by iteration i of the loop, in one of the usual orders
        for off, p in ((0, i), (1, RADD(i, 1))):
            if ENG.prove('', counts(p), quiet=True):
                break
        else:
            off, p = 0, i
        ENG.prove('an iteration counts exactly if the distance of its row to the row before differs from the time step', counts(p), firm=False)
        ENG.prove('every pair of rows is visited', IMP(RLE(1, n), AND(RLE(RSUB(n, off), N))), firm=False)
        ENG.prove('input unchanged', not ENG.frame_log)
    return f


for print_all in (False, True):
    for verbose in (False, True):
        gaps(print_all, verbose)
