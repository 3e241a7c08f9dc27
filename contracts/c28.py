"""C28: interpolation data pass through the daily readings."""
import os
import random

from contracts.util import *
from pyvc.axis import RangeDays


def prepared(out, df, D, table, what):
    same_index(what, out.index, 24, D)
    d = day('cell')
    at = {h: c for c, h in table.items()}
    for h in range(24):
        if h in at:
            ENG.prove('%s: reading at %d h' % (what, h), IMP(D.has(d), eq(out.at(d, h), df[at[h]].at(d, 0))))
        else:
            ENG.prove('%s: nothing at %d h' % (what, h), IMP(D.has(d), isnan(out.at(d, h))))


def readings(table, name):
    @item('prepare_interpolation_data, ' + name, ['melodist.util.util.prepare_interpolation_data'])
    def f(L):
        m = L.package()
        D = days('D', contiguous=True)
        df = frame(Axis(1, D), list(table) + ['other'])
        out = returns(lambda: m.util.prepare_interpolation_data(df, dict(table)))
        prepared(out, df, D, table, 'data')
        ENG.prove('inputs unchanged', not ENG.frame_log)


def station(table, name):
    @item('Station.interpolate, ' + name, ['melodist.station.Station.interpolate'])
    def f(L):
        m = L.package()
        for freq in ('D', None):
            D = days('D', contiguous=freq is not None)
            df = frame(Axis(1, D), list(table) + ['other'])
            df.__dict__['_ix'] = DIndex(df.axis, freq)
            s = m.Station()
            s.data_daily = df
            R = RangeDays(df.index[0].d, df.index[-1].d)
            out = returns(lambda: s.interpolate(dict(table), method='linear', limit=24, limit_direction='both'))
            same_index('interpolated', out.index, 24, R)
            d = day('cell')
            for c, h in table.items():
                x = df[c].at(d, 0)
                ENG.prove('reading of %s at %d h' % (c, h), IMP(AND(D.has(d), NOT(isnan(x))), eq(out.at(d, h), x)))
            ENG.prove('inputs unchanged', not ENG.frame_log)


rng = random.Random(int(os.environ.get('VERIF_SEED', '0') or 0))
for h in range(24):
    readings({'x': h}, 'one reading at %d h' % h)
TABLES = [{'T7': 7, 'T14': 14, 'T19': 19}, {'T19': 19, 'T14': 14, 'T7': 7}, {'c%d' % h: h for h in range(24)}, {'c%d' % h: h for h in reversed(range(24))}]
for n in (2, 2, 3, 4, 6, 12):
    TABLES.append({'c%d' % h: h for h in rng.sample(range(24), n)})
for i, t in enumerate(TABLES):
    readings(t, '%d readings (table %d)' % (len(t), i))
for i in (0, 1, 4, 5):
    station(TABLES[i], '%d readings (table %d)' % (len(TABLES[i]), i))
