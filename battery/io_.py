"""C20, C25, C26, C30: files"""
import shutil
import tempfile

from .base import *  # noqa: F401,F403
from .temp import course


class scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif-io-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


# ------------------------------------------------------------------ C20
@scenario('C20', 2)
def json_roundtrip(k, rng):
    s = melodist.StationStatistics(lon=1.0, lat=2.0, timezone=1)
    on = lambda: k % 4 == 0 or rng.random() < 0.5
    months = sorted(set(map(int, rng.integers(1, 13, 5)))) if k % 3 == 1 else list(range(1, 13))
    if k % 3 == 2:
        months = list(rng.permutation(12) + 1)
    R = lambda *n: np.round(rng.normal(0, 10, n), int(rng.choice([3, 15])))
    if on():
        s.wind.update(a=float(R(1)[0]), b=np.float64(R(1)[0]), t_shift=float(R(1)[0]))
    if on():
        s.hum.update(a0=float(R(1)[0]), a1=np.float64(R(1)[0]), kr=12)
    if on():
        mi = pd.MultiIndex.from_tuples(
            [(int(m), h, w) for m in sorted(months) for h in range(24) for w in (False, True) if rng.random() < 0.95 or (h, w) == (0, False)]
        )
        s.hum.month_hour_precip_mean = pd.Series(R(len(mi)), index=mi, name='hum')
    if on():
        s.temp.max_delta = pd.Series(R(len(months)), index=months)
    if on():
        s.temp.mean_course = pd.DataFrame(R(24, len(months)), index=np.arange(24), columns=months)
    if on():
        s.glob.mean_course = pd.DataFrame(np.abs(R(24, len(months))), index=np.arange(24), columns=months)
    if on():
        s.glob.angstroem.loc[:, :] = R(12, 2)
    if on():
        s.glob.bristcamp.loc[:, :] = R(12, 2)
    if on():
        if k % 2:
            s.precip.months = [np.arange(12) + 1]
        else:
            s.precip.months = [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
        s.precip.stats = [cascade_stats(k, rng, 5, lst=(k // 2) % 2 == 1) for _ in s.precip.months]
    note(set={v: [q for q, w in getattr(s, v).items() if w is not None] for v in ('temp', 'wind', 'precip', 'hum', 'glob')}, months=[int(m) for m in months])
    with scratch() as d:
        fn = d + '/stats.json'
        call(s.to_json, fn)
        r = call(melodist.StationStatistics.from_json, fn)
    for var in ('wind', 'hum', 'temp', 'glob', 'precip'):
        a, b = getattr(s, var), getattr(r, var)
        need(set(a) == set(b), '%s: set of statistics changed', var)
        for q in a:
            x, y = a[q], b[q]
            what = '%s.%s' % (var, q)
            if x is None:
                need(y is None, '%s was not set', what)
            elif isinstance(x, float) or isinstance(x, int):
                need(float(y) == float(x), '%s changed from %r to %r', what, x, y)
            elif isinstance(x, pd.DataFrame):
                x = x.sort_index().sort_index(axis=1)
                need(list(x.index) == list(y.index) and list(x.columns) == list(y.columns), '%s: labels changed', what)
                need(np.abs(x.values.astype(float) - y.values.astype(float)).max() <= 1e-9, '%s: values changed', what)
            elif isinstance(x, pd.Series):
                x = x.sort_index()
                need(list(x.index) == list(y.index), '%s: labels changed', what)
                need(np.abs(x.values - y.values.astype(float)).max() <= 1e-9, '%s: values changed', what)
            elif q == 'months':
                need(len(x) == len(y) and all(list(p) == list(o) for p, o in zip(x, y)), '%s changed', what)
            else:
                need(len(x) == len(y), '%s: number of seasons', what)
                for p, o in zip(x, y):
                    pp, oo = (p, o) if isinstance(p, list) else ([p], [o])
                    need(isinstance(o, list) == isinstance(p, list) and len(pp) == len(oo), '%s: structure', what)
                    for c1, c2 in zip(pp, oo):
                        need(isinstance(c2, melodist.cascade.CascadeStatistics), '%s: type', what)
                        for f in ('p01', 'p10', 'pxx', 'wxx', 'threshold'):
                            need(np.array_equal(getattr(c1, f), getattr(c2, f)), '%s.%s changed', what, f)
                        need(c1.percentile == c2.percentile, '%s.percentile changed', what)
    return True


# ------------------------------------------------------------------ C25
@scenario('C25', 2)
def smet(k, rng):
    mode = 'dh'[k % 2]
    names = ['tmean', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'wind'] if mode == 'd' else ['temp', 'precip', 'glob', 'hum', 'wind']
    cols = [c for c in rng.permutation(names) if k < 4 or rng.random() < 0.7] or names[:1]
    n = int(rng.choice([1, 2, 30, 200]))
    idx = pd.date_range(STARTS[k % len(STARTS)], periods=n, freq='D' if mode == 'd' else 'h')
    df = pd.DataFrame({c: holes(k, rng, rng.uniform(-50, 400, n), [0, 0.2, 0.5][k % 3]) for c in cols}, index=idx)
    df.iloc[0, 0] = 1.25
    if len(cols) > 1 and k % 5 == 4:
        df[cols[-1]] = np.nan
    if len(cols) > 1 and k % 7 == 5:
        df[cols[-1]] = 0.0
    check = bool(rng.integers(0, 2)) or k % 5 != 4
    meta = {'station_id': 'x%d' % k, 'station_name': 'Name of station', 'latitude': '47.5', 'longitude': '-11.25', 'nodata': '-999'}
    note(data=df, mode=mode, check_nan=check)
    keep = df.copy()
    with scratch() as d:
        fn = d + '/f.smet'
        call(melodist.write_smet, fn, df, dict(meta), mode=mode, check_nan=check)
        head, r = call(melodist.read_smet, fn, mode)
    need(df.equals(keep) and list(df.columns) == list(keep.columns), 'write_smet modified the data')
    exp = df.loc[:, df.notna().any()] if check else df
    need(set(r.columns) == set(exp.columns), 'variables %s instead of %s', list(r.columns), list(exp.columns))
    check_axis(r.index, idx, 'SMET')
    for c in exp:
        a, b = r[c].values.astype(float), exp[c].values
        need((np.isnan(a) == np.isnan(b)).all(), 'missing values of %s', c)
        o = ~np.isnan(b)
        need(np.abs(a[o] - b[o]).max(initial=0) <= 0.005 + 1e-9, 'values of %s', c)
    for q, v in meta.items():
        need(head.get(q) == v, 'header entry %s', q)
    return True


# ------------------------------------------------------------------ C26
def _knmi(fn, recs):
    with open(fn, 'w') as f:
        for i in range(31):
            f.write('# header line %d\n' % i)
        f.write('# STN,YYYYMMDD,   HH,   DD,   FH,    T,   SQ,    Q,   RH,    U\n')
        for d, h, v in recs:
            f.write('  260,%s,%5d,%5d,%s\n' % (d.strftime('%Y%m%d'), h, 180, ','.join(('%5d' % x) if x is not None else '     ' for x in v)))


@scenario('C26', 2)
def knmi(k, rng):
    n = int(rng.choice([1, 24, 25, 100]))
    nf = 1 if k % 2 else int(rng.integers(1, 4))
    day0 = pd.Timestamp(STARTS[k % len(STARTS)])
    files, rows = [], []
    for fi in range(nf):
        recs = []
        for i in range(n):
            d, h = day0 + pd.Timedelta(days=i // 24 + 40 * fi), i % 24 + 1
            v = [int(rng.integers(0, 300)), int(rng.integers(-250, 350)), int(rng.integers(0, 11)), int(rng.integers(0, 330)), int(rng.choice([-1, 0, 0, 5, 123])), int(rng.integers(5, 101))]
            v = [None if rng.random() < 0.05 and i else x for x in v]
            recs.append((d, h, v))
        files.append(recs)
        rows += recs
    note(records=[(str(d), h, v) for d, h, v in rows[:30]])
    with scratch() as d:
        for i, recs in enumerate(files):
            _knmi('%s/f%d.txt' % (d, i), recs)
        r = call(melodist.read_single_knmi_file, d + '/f0.txt') if nf == 1 and k % 2 else call(melodist.read_knmi_dataset, d + '/')
    need(len(r) == len(rows), '%d rows instead of %d', len(r), len(rows))
    r = r.sort_index()
    need(set(r.columns) == {'temp', 'precip', 'glob', 'hum', 'wind', 'ssd'}, 'columns')
    for i, (d, h, v) in enumerate(sorted(rows, key=lambda x: (x[0], x[1]))):
        fh, t, sq, q, rh, u = [np.nan if x is None else x for x in v]
        need(r.index[i] == d + pd.Timedelta(hours=h), 'time %s instead of %s %d', r.index[i], d, h)
        e = {'temp': t / 10 + 273.15, 'precip': 0.0 if rh < 0 else rh / 10, 'glob': q * 10000 / 3600, 'hum': u, 'wind': fh / 10, 'ssd': sq * 6}
        for c in e:
            g = r[c].iloc[i]
            need((np.isnan(g) and np.isnan(e[c])) or abs(g - e[c]) <= 1e-9 * (1 + abs(e[c])), '%s at %s is %s instead of %s', c, r.index[i], g, e[c])
    return True


# ------------------------------------------------------------------ C30
@scenario('C30', 2)
def dwd(k, rng):
    mode = 'dh'[k % 2]
    dic = {
        'LUFTTEMPERATUR': 'tmean', 'LUFTTEMPERATUR_MINIMUM': 'tmin', 'LUFTTEMPERATUR_MAXIMUM': 'tmax', 'NIEDERSCHLAGSHOEHE': 'precip',
        'GLOBAL_KW_J': 'glob', 'REL_FEUCHTE': 'hum', 'WINDGESCHWINDIGKEIT': 'wind', 'SONNENSCHEINDAUER': 'sun_h',
    }
    keys = [c for c in rng.permutation(list(dic)) if k < 2 or rng.random() < 0.6] or ['REL_FEUCHTE']
    nf = 1 if k % 3 else min(2, len(keys))
    skip = bool((k // 2) % 2)
    n = int(rng.choice([2, 10, 60]))
    groups = [keys[i::nf] for i in range(nf)]
    data = []
    with scratch() as d:
        with open(d + '/meta.txt', 'w') as f:
            f.write('Stations_id;Stationshoehe; Geogr.Breite; Geogr.Laenge;von_datum;bis_datum;Stationsname\n')
            f.write('      44;40;52.1;8.1;19690101;19801231;Old\n')
            f.write('      44;44;52.9;8.2;19810101;20201231;New\n')
        fns = []
        for gi, g in enumerate(groups):
            idx = pd.date_range(pd.Timestamp(STARTS[k % len(STARTS)]) + pd.Timedelta(days=gi), periods=n, freq='D' if mode == 'd' else 'h')
            vals = {c: [None if rng.random() < 0.1 else round(float(rng.uniform(-20, 90)), 1) for _ in range(n)] for c in g}
            fn = '%s/f%d.txt' % (d, gi)
            with open(fn, 'w') as f:
                f.write('STATIONS_ID; MESS_DATUM; QUALITAETS_NIVEAU;' + ';'.join(' ' + c for c in g) + ';eor\n')
                for i, t in enumerate(idx):
                    f.write(
                        '44;%s;3;%s;eor\n'
                        % (t.strftime('%Y%m%d' if mode == 'd' else '%Y%m%d%H'), ';'.join('-999' if vals[c][i] is None else '%5.1f' % vals[c][i] for c in g))
                    )
                if skip:
                    f.write('\x1a\n')
            fns.append(fn)
            data.append((idx, vals))
        note(mode=mode, columns=groups, skip_last=skip, first=[{c: v[:5] for c, v in vals.items()} for _, vals in data])
        head, r = call(melodist.read_dwd, fns if nf > 1 or k % 5 == 0 else fns[0], d + '/meta.txt', mode=mode, skip_last=skip)
    times = sorted({t for idx, _ in data for t in idx})
    check_axis(r.index, pd.DatetimeIndex(times), 'DWD')
    need(set(r.columns) == {dic[c] for c in keys}, 'columns %s', list(r.columns))
    for idx, vals in data:
        for c, v in vals.items():
            e = pd.Series([np.nan if x is None else x for x in v], index=idx).reindex(times)
            if dic[c] in ('tmean', 'tmin', 'tmax'):
                e = e + 273.15
            need(close(r[dic[c]].values.astype(float), e.values, 1e-9), 'values of %s', dic[c])
    need(str(head['Stationsname']).strip() == 'New' and float(head['Breite']) == 52.9 and float(head['Laenge']) == 8.2 and int(head['Stations_id']) == 44, 'header')
    return True
