"""C01: equal precipitation disaggregation."""
from contracts.util import *


@item('disagg_prec(equal)', ['melodist.precipitation.disagg_prec', 'melodist.util.util.distribute_equally', 'melodist.util.util.hourly_index'])
def equal(L):
    m = L.package()
    D = days()
    f = frame(Axis(1, D), ['precip'])
    out = returns(lambda: m.disagg_prec(f, method='equal'))
    same_index('hours', out.index, 24, D)
    d = day()
    obs = values('precip')(d)
    for h in range(24):
        got = num(out.at(d, h))
        ENG.prove('hour %02d is one 24th of the daily total, missing iff the total is missing' % h, IMP(D.has(d), eq(got, obs / 24)))
    ENG.prove('inputs unchanged', not ENG.frame_log)


@item('distribute_equally', ['melodist.util.util.distribute_equally', 'melodist.util.util.hourly_index'])
def dist(L):
    m = L.package()
    D = days()
    s = series(Axis(1, D), 'x')
    d = day()
    obs = values('x')(d)
    for div in (False, True):
        out = returns(lambda: m.util.distribute_equally(s, divide=div))
        same_index('divide=%s' % div, out.index, 24, D)
        for h in range(24):
            ENG.prove('divide=%s hour %02d' % (div, h), IMP(D.has(d), eq(out.at(d, h), obs / 24 if div else obs)))
    ENG.prove('inputs unchanged', not ENG.frame_log)
