"""C16: daily radiation from sunshine duration or temperature range."""
from contracts.util import *
from contracts.util import parameter
from pyvc import tables
from pyvc.axis import month
from pyvc.core import F, RADD, REQ, RITE, RLE, RLT, RMUL, RSUB
from pyvc.tables import MonthSeries

RAD = 'melodist.radiation.'
FD = [RAD + 'disaggregate_radiation', 'melodist.util.util.hourly_index']


def params(names, monthly, positive=()):
    """scalars, or one value per month; returns the arguments and the value on a day"""
    args, at = [], []
    for n in names:
        if monthly:
            t = z3.Function('par_' + n, z3.IntSort(), z3.RealSort())

            def fn(m, l=None, t=t, n=n):
                v = t(core.zr(m))
                if n in positive:
                    ENG.fact(v > 0)
                return SF(v)
            args.append(MonthSeries(fn, frozen=n))
            at.append(lambda d, fn=fn: fn(month(d)))
        else:
            p = parameter(n)
            if n in positive:
                ENG.fact(p.v > 0)
            args.append(p)
            at.append(lambda d, p=p: p)
    return args, at


def callee(L, name, D, spec):
    """replace a daily model by its contract: the caller must pass the arguments given by spec, the result is arbitrary"""
    used = []

    def stub(*args):
        d = day('called')
        if len(args) != len(spec(d)):
            raise core.Unsupported('%s has other arguments' % name)
        for i, (a, x) in enumerate(zip(args, spec(d))):
            got = a.at(d, 0) if isinstance(a, vec.Vec) else a.fn(month(d), (d, 0)) if isinstance(a, MonthSeries) else a
            has = a.axis.has(d, 0) if isinstance(a, vec.Vec) else True
            ENG.prove('%s: argument %d' % (name, i), IMP(AND(D.has(d), has), eq(got, x)), firm=False)
        used.append(args[0].axis)
        ax = args[0].axis
        return Series(ax, values('daily_model'))
    if L.patch(RAD + name, stub) is None:
        raise core.Unsupported('%s is not there' % name)
    return used


def shares(out, d, P, R, lo=None):
    """hourly values of day d: shares of the daily radiation R"""
    Pm = RMUL(F(1, 24), vec.total_of(P))
    for h in range(24):
        o = num(out.at(d, h))
        t = RMUL(RMUL(P[h], ENG.inv(Pm)), R.v)
        ENG.prove('hour %02d is missing iff the daily radiation is' % h, IFF(o.nan, R.nan), firm=False)
        ENG.prove('hour %02d is the share of the daily radiation' % h,
                  IMP(AND(NOT(R.nan), RLT(0, Pm)), REQ(o.v, RITE(RLT(t, F('0.01')), 0, t))), firm=False)


def end():
    ENG.prove('inputs unchanged', not ENG.frame_log)
    ENG.prove('deterministic', ENG.random_used == 0)


def angstroem(monthly):
    tag = 'monthly parameters' if monthly else 'one set of parameters'

    @item('angstroem, ' + tag, [RAD + 'angstroem'])
    def f(L):
        D = days()
        d = day()
        ENG.assume(D.has(d))
        ax = Axis(1, D)
        (a, b), (av, bv) = params('ab', monthly)
        ssd, dl, pot = series(ax, 'ssd'), series(ax, 'daylength', nan=False, lo=0), series(ax, 'pot', nan=False, lo=0)
        out = returns(lambda: L.package().radiation.angstroem(ssd, dl, pot, a, b))
        same_index('days', out.index, 1, D)
        s, l, p = num(ssd.at(d, 0)), num(dl.at(d, 0)), num(pot.at(d, 0))
        spec = (av(d) + bv(d) * s / l) * p
        ENG.prove('radiation follows the model with the parameters of the month', IMP(RLT(0, l.v), eq(out.at(d, 0), spec)), firm=False)
        end()

    @item('disaggregation from sunshine duration, ' + tag, FD + [RAD + 'angstroem'])
    def g(L):
        D = days()
        d = day()
        ENG.assume(D.has(d))
        ax = Axis(1, D)
        (a, b), (av, bv) = params('ab', monthly)
        f = frame(ax, ['ssd'])
        st = frame(ax, ['daylength', 'sunrise', 'sunset'], nan=False, lo=0)
        pot = series(Axis(24, D), 'pot', nan=False, lo=0)
        dl = lambda d: num(st['daylength'].at(d, 0))
        L.package()
        callee(L, 'angstroem', D, lambda d: [values('ssd')(d), dl(d), SF(RMUL(F(1, 24), vec.total_of([num(pot.at(d, h)).v for h in range(24)]))), av(d), bv(d)])
        out = returns(lambda: L.package().disaggregate_radiation(f, sun_times=st, pot_rad=pot, method='pot_rad_via_ssd', angstr_a=a, angstr_b=b))
        same_index('hours', out.index, 24, D)
        P = [num(pot.at(d, h)).v for h in range(24)]
        shares(out, d, P, core.choose(RLT(0, dl(d).v), values('daily_model')(d), SF(0)))
        for h in range(24):
            ENG.prove('hour %02d is zero without daylight' % h, IMP(REQ(dl(d).v, 0), eq(out.at(d, h), SF(0))), firm=False)
        end()


angstroem(False)
angstroem(True)


def dT_of(D, tmin, tmax):
    """daily range: maximum minus mean of the minima of the day and the following day"""
    def cell(d, s=0):
        own = values('tmin')(d)
        nx = values('tmin')(d + 1)
        nxt = core.choose(d == D.last, own, core.choose(D.has(d + 1), nx, NAN))
        return values('tmax')(d) - (own + nxt) / 2
    return Series(Axis(1, D), cell)


def model(D, d, pot, av, cv):
    dT = dT_of(D, None, None)
    mean = tables.monthly(dT, 'mean').fn(month(d), (d, 0))
    x = num(dT.at(d, 0))
    B = SF(F('0.036')) * ENG.exp(SF(F('-0.154')) * mean)
    e = ENG.exp(-(B * ENG.pow(x, cv(d))))
    return x, av(d) * (SF(1) - e) * pot, e


def bristow(monthly):
    tag = 'monthly parameters' if monthly else 'one set of parameters'

    @item('bristow_campbell, ' + tag, [RAD + 'bristow_campbell'])
    def f(L):
        D = days()
        d = day()
        ENG.assume(D.has(d))
        ax = Axis(1, D)
        (A, C), (av, cv) = params('AC', monthly, positive=('C',))
        tmin, tmax, pot = series(ax, 'tmin'), series(ax, 'tmax'), series(ax, 'pot', nan=False, lo=0)
        out = returns(lambda: L.package().radiation.bristow_campbell(tmin, tmax, pot, A, C))
        same_index('days', out.index, 1, D)
        p = num(pot.at(d, 0))
        x, spec, e = model(D, d, p, av, cv)
        o = num(out.at(d, 0))
        ok = AND(NOT(x.nan), RLE(0, x.v))
        ENG.prove('radiation follows the model with the parameters of the month', IMP(OR(x.nan, RLE(0, x.v)), eq(o, spec)), firm=False)
        ENG.prove('radiation lies between 0 and A times the potential radiation',
                  IMP(AND(ok, RLE(0, av(d).v)), AND(RLE(0, o.v), RLE(o.v, RMUL(av(d).v, p.v)))), firm=False)
        end()

    @item('disaggregation from temperature, ' + tag, FD + [RAD + 'bristow_campbell'])
    def g(L):
        D = days()
        d = day()
        ENG.assume(D.has(d))
        (A, C), (av, cv) = params('AC', monthly, positive=('C',))
        f = frame(Axis(1, D), ['tmin', 'tmax'])
        pot = series(Axis(24, D), 'pot', nan=False, lo=0)
        L.package()
        callee(L, 'bristow_campbell', D, lambda d: [values('tmin')(d), values('tmax')(d), SF(RMUL(F(1, 24), vec.total_of([num(pot.at(d, h)).v for h in range(24)]))), av(d), cv(d)])
        out = returns(lambda: L.package().disaggregate_radiation(f, pot_rad=pot, method='pot_rad_via_bc', bristcamp_a=A, bristcamp_c=C))
        same_index('hours', out.index, 24, D)
        shares(out, d, [num(pot.at(d, h)).v for h in range(24)], values('daily_model')(d))
        end()


bristow(False)
bristow(True)
