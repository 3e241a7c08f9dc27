"""C11: defining relations of the humidity methods."""
from contracts.hum import *
from pyvc.core import BITE, RITE


def preserved(method, kw):
    name = '%s%s: daily mean' % (method, ' kr=%d' % kw['kr'] if kw else '')

    @item(name, FN)
    def f(L):
        c = Case(method)
        free = c.call(L, **kw)
        out = c.call(L, preserve_daily_mean=True, **kw)
        obs = c.v['hum']
        inside = NOT(obs.nan)
        tot, dev = 0, []
        for h in range(24):
            g, u = num(out.at(c.d, h)), num(free.at(c.d, h))
            ENG.prove('hour %02d uncorrected without observed mean' % h, IMP(obs.nan, eq(g, u)))
            inside = AND(inside, OR(g.nan, AND(RLT(0, g.v), RLT(g.v, 100))))
            dev.append((g, RITE(g.nan, 0, RSUB(g.v, obs.v))))
            tot = RADD(tot, dev[-1][1])
        for m, cells in means_in(core.zreal(dev[0][0].v)):
            if len(cells) == 24:
                zs = [RITE(v, RSUB(x, m), 0) for v, x in cells]
                hyps = [REQ(vec.total_of(zs), 0)]
                for h, ((g, y), (v, x)) in enumerate(zip(dev, cells)):
                    hyps.append(IMP(inside, REQ(y, zs[h])))
                    ENG.have('hour %02d deviates from the mean as before the correction' % h, hyps[-1], firm=False)
                ENG.derive('the deviations sum to zero', IMP(inside, REQ(tot, 0)), hyps, [inside] + zs + [y for _, y in dev])
        ENG.prove('the hours average to the observed mean', IMP(inside, REQ(tot, 0)), firm=False)
        ENG.prove('inputs unchanged', not ENG.frame_log)
        ENG.prove('deterministic', ENG.random_used == 0)


for m, kw in METHODS:
    preserved(m, kw)


@item('min_max: relation to temperature', FN)
def min_max(L):
    c = Case('min_max')
    out = c.call(L)
    v = c.v
    lo, hi, tn, tx = v['hum_min'], v['hum_max'], v['tmin'], v['tmax']

    def frac(t, a, b):
        return (SF(t) - SF(a)) / (SF(b) - SF(a))

    def part(t, a, b):
        w = frac(t, a, b).v
        return IMP(AND(RLT(a, b), RLE(a, t), RLE(t, b)), AND(RLE(0, w), RLE(w, 1), IMP(REQ(t, a), REQ(w, 0)), IMP(REQ(t, b), REQ(w, 1)), REQ(RMUL(w, RSUB(b, a)), RSUB(t, a))))

    def mix(w, a, b):
        m = (SF(a) + SF(w) * (SF(b) - SF(a))).v
        return IMP(AND(RLE(0, w), RLE(w, 1), RLE(0, a), RLE(a, 100), RLE(0, b), RLE(b, 100)),
                   AND(RLE(0, m), RLE(m, 100), IMP(REQ(w, 0), REQ(m, a)), IMP(REQ(w, 1), REQ(m, b))))
    fraction = ENG.lemma('the position between the extremes is within 0..1', part, 3, heavy=True)
    mixture = ENG.lemma('a weighted mean lies between its terms', mix, 3, heavy=True)
    for h in range(24):
        g, t = num(out.at(c.d, h)), c.t[h]
        ok = NOT(OR(lo.nan, hi.nan, tn.nan, tx.nan, t.nan))
        within = AND(*[AND(RLE(0, x.v), RLE(x.v, 100)) for x in (lo, hi)])
        fraction(t.v, tn.v, tx.v)
        w = frac(t.v, tn.v, tx.v)
        mixture(w.v, hi.v, lo.v)
        spec = hi + w * (lo - hi)
        ok = AND(ok, within, RLE(tn.v, t.v), RLE(t.v, tx.v))
        ENG.have('hour %02d: linear between the extremes' % h, IMP(ok, eq(g, spec)), firm=False)
        ENG.prove('hour %02d: maximum humidity at the minimum temperature' % h, IMP(AND(ok, REQ(t.v, tn.v)), eq(g, hi)), firm=False)
        ENG.prove('hour %02d: minimum humidity at the maximum temperature' % h, IMP(AND(ok, REQ(t.v, tx.v)), eq(g, lo)), firm=False)
    ENG.prove('inputs unchanged', not ENG.frame_log)


def saturation(method):
    @item('%s: saturation at the dew point' % method, FN)
    def f(L):
        c = Case(method)
        out = c.call(L)
        td = c.tdew
        z = F('273.15')

        def magnus(x, b, a):
            y = SF(x) - z
            return ((y * F(b)) / (y + F(a))).v

        def mono(x, y):
            r = []
            for b, a in (('17.62', '243.12'), ('22.46', '272.62')):
                p, q = magnus(x, b, a), magnus(y, b, a)
                r += [IMP(REQ(x, y), REQ(p, q)), IMP(RLT(x, y), RLT(p, q)), IFF(RLE(z, x), RLE(0, p)), IFF(RLE(z, y), RLE(0, q))]
            return IMP(AND(RLE(31, x), RLE(31, y)), AND(*r))
        magnus_mono = ENG.lemma('the exponents of the Magnus formula increase with temperature', mono, 2, heavy=True)
        for h in range(24):
            g, t = num(out.at(c.d, h)), c.t[h]
            ok = NOT(OR(td.nan, t.nan))
            magnus_mono(td.v, t.v)
            ENG.prove('hour %02d: saturated at the dew point' % h, IMP(AND(ok, REQ(t.v, td.v)), eq(g, SF(100))), firm=False)
            ENG.prove('hour %02d: less than saturated above the dew point' % h, IMP(AND(ok, RLT(td.v, t.v)), AND(NOT(g.nan), RLT(g.v, 100))), firm=False)
        ENG.prove('inputs unchanged', not ENG.frame_log)


saturation('minimal')
saturation('dewpoint_regression')


def variation(kr, hours):
    """the dew point moves to that of the following day and swings by half a degree"""
    @item('linear_dewpoint_variation kr=%d, hours %d..%d: saturation at the dew point' % (kr, hours[0], hours[-1]), FN)
    def f(L):
        E = z3.Function('vapour_pressure', z3.RealSort(), z3.RealSort())

        def stub(temp, hum=100, **kw):
            # the contract of vapor_pressure (C12): positive, increasing, missing where the temperature is missing
            if kw or num(hum) is None or num(hum).v != 100 or not isinstance(temp, Series):
                raise core.Unsupported('vapor_pressure called in another way')
            rd = temp.snapshot()

            def cell(*l):
                x = num(rd(*l))
                e = E(core.zreal(x.v))
                ENG.fact(e > 0)
                return SF(e, x.nan)
            return Series(temp.axis, cell)
        if L.patch('melodist.util.util.vapor_pressure', stub) is None:
            raise core.Unsupported('vapor_pressure not found')
        c = Case('linear_dewpoint_variation')
        out = c.call(L, kr=kr)
        following = c.a0 + c.a1 * values('tmin')(c.nd)
        share = ENG.lemma('a quotient of positive numbers compares with one as they do', lambda x, y, w: IMP(
            AND(RLT(0, x), RLT(0, y), REQ(RMUL(y, w), 1)), AND(IMP(REQ(x, y), REQ(RMUL(x, w), 1)), IMP(RLT(x, y), RLT(RMUL(x, w), 1)), RLT(0, RMUL(x, w)))), 3, heavy=True)
        for h in hours:
            g, t = num(out.at(c.d, h)), c.t[h]
            swing = ENG.sin(SF(None, pim=F(h + 1, kr) - F(3, 4)))
            td = c.tdew + F(h, 24) * (following - c.tdew) + F(1, 2) * swing
            x, y = E(core.zreal(td.v)), E(core.zreal(t.v))
            ENG.fact(AND(x > 0, IMP(RLT(td.v, t.v), x < y)))
            q = ENG.inv(y)
            ENG.have('hour %02d: inverse' % h, REQ(RMUL(y, q), 1), heavy=True, firm=False)
            share(x, y, q)
            ok = NOT(OR(td.nan, t.nan))
            ENG.prove('hour %02d: saturated at the dew point' % h, IMP(AND(ok, REQ(t.v, td.v)), eq(g, SF(100))), firm=False)
            ENG.prove('hour %02d: less than saturated above the dew point' % h, IMP(AND(ok, RLT(td.v, t.v)), AND(NOT(g.nan), RLT(g.v, 100))), firm=False)
        ENG.prove('inputs unchanged', not ENG.frame_log)


for h in range(0, 24, 3):
    variation(6, range(h, h + 3))
    variation(12, range(h, h + 3))
