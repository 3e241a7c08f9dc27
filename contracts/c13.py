"""C13: wind speed disaggregation."""
import z3
from contracts.util import *
from pyvc.core import zreal

F_WIND = ['melodist.wind.disaggregate_wind', 'melodist.util.util.distribute_equally', 'melodist.util.util.hourly_index']


def setup(lo=None):
    D = days()
    return D, series(Axis(1, D), 'wind', lo=lo), day(), values('wind', lo=lo)


@item('equal', F_WIND)
def equal(L):
    D, s, d, w = setup()
    out = returns(lambda: L.package().disaggregate_wind(s))
    same_index('hours', out.index, 24, D)
    for h in range(24):
        ENG.prove('hour %02d repeats the daily value' % h, IMP(D.has(d), eq(out.at(d, h), w(d))))
    ENG.prove('inputs unchanged', not ENG.frame_log)


@item('cosine', F_WIND + ['melodist.wind._cosine_function'])
def cosine(L):
    D, s, d, w = setup()
    a, b, t = (SF(ENG.fresh(x)) for x in 'abt')
    out = returns(lambda: L.package().disaggregate_wind(s, method='cosine', a=a, b=b, t_shift=t))
    ENG.prove('one value per hour of the given days', core.REQ(core.num(out._len()).v if hasattr(out, '_len') else 0, core.RMUL(24, D.n)))
    tot = SF(0)
    ok = True
    for h in range(24):
        g = num(out.at(d, h))
        spec = w(d) * b + w(d) * a * core.ENG.cos(SF(0, pim=(core.RMUL(core.F(1, 12), core.RSUB(h, t.v)))))
        ok &= ENG.prove('hour %02d follows the cosine of the time since the shift' % h, IMP(D.has(d), eq(g, spec)), heavy=None, firm=False)
        tot = tot + core.ENG.cos(SF(0, pim=(core.RMUL(core.F(1, 12), core.RSUB(h, t.v)))))
    # sum of the 24 cosines is zero: opposite hours cancel
    for h in range(12):
        c1 = core.ENG.cos(SF(0, pim=(core.RMUL(core.F(1, 12), core.RSUB(h, t.v)))))
        c2 = core.ENG.cos(SF(0, pim=(core.RMUL(core.F(1, 12), core.RSUB(h + 12, t.v)))))
        ENG.have('cosines of hours %d and %d cancel' % (h, h + 12), core.REQ(core.RADD(c1.v, c2.v), 0))
    ENG.have('the 24 cosines sum to zero', core.REQ(tot.v, 0))
    # mean of the specified values: (24*b*w + a*w*sum cos)/24
    ENG.prove('the hours average to b times the daily value', core.REQ(core.RADD(core.RMUL(24, core.RMUL(b.v, w(d).v)), core.RMUL(core.RMUL(a.v, w(d).v), tot.v)),
                                                                      core.RMUL(24, core.RMUL(b.v, w(d).v))), heavy=True, firm=False)
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)


@item('random', F_WIND)
def random(L):
    D, s, d, w = setup(lo=0)
    ENG.rand_open = True
    ENG.assumed.add('a uniform draw of exactly 0 (probability 2**-53, its logarithm is -inf) is left out')
    out = returns(lambda: L.package().disaggregate_wind(s, method='random'))
    same_index('hours', out.index, 24, D)
    k = z3.Real('k')
    for h in range(24):
        g = num(out.at(d, h))
        ENG.prove('hour %02d missing iff the daily value is' % h, IMP(D.has(d), core.IFF(g.nan, w(d).nan)), firm=False)
        ENG.prove('hour %02d is not negative' % h, IMP(AND(D.has(d), NOT(w(d).nan)), OR(g.pinf, core.RLE(0, g.v))), firm=False)
        v = core.unmul(zreal(g.v))
        scaled = z3.substitute(v, (w(d).v, k * w(d).v))
        ENG.prove('hour %02d is proportional to the daily value' % h, IMP(AND(D.has(d), NOT(w(d).nan), k >= 0), scaled == k * v), firm=False, heavy=True)
    ENG.prove('inputs unchanged', not ENG.frame_log)
