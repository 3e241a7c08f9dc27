"""C18: daily aggregation of hourly data."""
import itertools

from contracts.util import *
from contracts.util import hourly
from pyvc.core import F, RADD, REQ, RITE, RLE, RMUL, RSUB

FN = ['melodist.util.util.daily_from_hourly']
OUT = {  # column of the result: (column of the input, aggregation)
    'temp': ('temp', 'mean'), 'tmin': ('temp', 'min'), 'tmax': ('temp', 'max'), 'precip': ('precip', 'sum'), 'glob': ('glob', 'mean'),
    'hum': ('hum', 'mean'), 'hum_min': ('hum', 'min'), 'hum_max': ('hum', 'max'), 'wind': ('wind', 'mean'), 'ssd': ('ssd', 'hours'),
}
IN = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']


def columns(names, out, what):
    exp = [c for c in OUT if OUT[c][0] in names]
    ENG.prove('%s: exactly the variables that are present' % what, sorted(out.cols) == sorted(exp))
    return exp


def values_of(name, g, cells, how):
    tot = vec.total_of([RITE(v, x, 0) for v, x in cells])
    some = OR(*[v for v, x in cells])
    ok = AND(NOT(g.pinf), NOT(g.ninf))
    if how in ('sum', 'hours'):
        ENG.prove('%s is the total of the hours of the day' % name, AND(ok, NOT(g.nan), REQ(g.v, tot if how == 'sum' else RMUL(F(1, 60), tot))), firm=False)
        return
    ENG.prove('%s is missing iff all hours are' % name, IFF(g.nan, NOT(some)), firm=False)
    if how == 'mean':
        ENG.prove('%s is the mean of the hours of the day (deviations sum to zero)' % name,
                  IMP(some, AND(ok, REQ(vec.total_of([RITE(v, RSUB(x, g.v), 0) for v, x in cells]), 0))), firm=False)
    else:
        le = (lambda a, b: RLE(a, b)) if how == 'min' else (lambda a, b: RLE(b, a))
        ENG.prove('%s is the %simum of the hours of the day' % (name, how), IMP(some, AND(
            ok, OR(*[AND(v, REQ(g.v, x)) for v, x in cells]), *[IMP(v, le(g.v, x)) for v, x in cells])), firm=False)


def aggregate(names, tag):
    @item(tag, FN)
    def f(L):
        D = days()
        d = day()
        ENG.assume(D.has(d))
        ax = hourly(D)
        df = frame(ax, names)
        out = returns(lambda: L.package().util.daily_from_hourly(df))
        for c in columns(names, out, tag):
            src, how = OUT[c]
            o = out[c]
            ENG.prove('%s: one value for the day' % c, AND(o.axis.K == 1, o.axis.has(d, 0)), firm=False)
            cells = []
            for h in range(24):
                x = num(df[src].at(d, h))
                cells.append((AND(ax.has(d, h), NOT(x.nan)), x.v))
            values_of(c, num(o.at(d, 0)), cells, how)
        ENG.prove('inputs unchanged', not ENG.frame_log)
        ENG.prove('deterministic', ENG.random_used == 0)


aggregate(IN, 'all variables')
for c in IN:
    aggregate([c], 'only ' + c)


@item('any selection of variables', FN)
def subsets(L):
    for k in range(1, len(IN)):
        for names in itertools.combinations(IN, k):
            df = frame(hourly(days()), list(names))
            columns(names, returns(lambda: L.package().util.daily_from_hourly(df)), ', '.join(names))
    ENG.prove('inputs unchanged', not ENG.frame_log)
