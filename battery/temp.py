"""C07-C09: temperature"""
from .base import *  # noqa: F401,F403

SITES = [(10.0, 50.0, 1), (25.0, 70.0, 2), (15.0, 78.0, 1), (-70.0, -33.0, -5), (0.0, 0.0, 0), (100.0, 68.0, 5), (20.0, -75.0, 3), (-150.0, 66.0, -10)]


def _daily(k, rng, nmin=1, nmax=60, gaps=True, season=None):
    idx = days(k, rng, nmin=nmin, nmax=nmax, gaps=gaps)
    tmin, tmax, tmean = tmin_tmax(k, rng, len(idx))
    p = [0.0, 0.0, 0.1, 0.3][int(rng.integers(0, 4))]
    df = pd.DataFrame(
        {'tmin': holes(k, rng, tmin, p), 'tmax': holes(k, rng, tmax, p), 'temp': holes(k, rng, tmean, p)}, index=idx
    )
    return df


def _locs(df, st, mode, delta):
    """assumed times of minimum and maximum according to the documentation"""
    if mode == 'fix':
        mn, mx = np.full(len(df), 7), np.full(len(df), 14)
    else:
        mn = np.round(st.sunrise.values.astype(float))
        noon = st.sunnoon.values.astype(float)
        if mode == 'sun_loc':
            mx = np.round(noon) + 2
        else:
            mx = np.round(noon + delta.loc[df.index.month].values)
            mx = np.where(mn > mx, np.round(noon) + 2, mx)
        mn = np.where(mn > mx, 0, mn)
    return mn.astype(int), mx.astype(int)


def _run(k, rng, method, polar):
    if polar:
        lon, lat, tz = [(25.0, 70.0, 2), (15.0, 78.0, 1), (20.0, -75.0, 1), (100.0, 68.5, 7)][k % 4]
        start = pd.Timestamp(['2000-11-10', '2001-01-10', '2003-12-15', '2000-04-20', '2000-05-10', '1999-07-25'][k % 6])
        n = int(rng.choice([2, 5, 30, 130]))
        idx = pd.date_range(start + pd.Timedelta(days=int(rng.integers(-10, 10))), periods=n, freq='D')
        tmin, tmax, tmean = tmin_tmax(k, rng, n)
        df = pd.DataFrame({'tmin': tmin, 'tmax': tmax, 'temp': tmean}, index=idx)
    else:
        lon, lat, tz = SITES[k % len(SITES)] if k % 2 else (float(rng.uniform(-180, 180)), float(rng.uniform(-60, 60)), 0)
        if k % 2 == 0:
            tz = float(np.round(lon / 15.0) + rng.integers(-3, 2))
        df = _daily(k, rng)
    mode = ['fix', 'sun_loc', 'sun_loc_shift'][int(rng.integers(0, 3))]
    night = bool(rng.integers(0, 2))
    delta = pd.Series(rng.uniform(-1, 5, 12), index=np.arange(12) + 1)
    st = call(melodist.util.get_sun_times, df.index, lon, lat, tz)
    note(daily=df, lon=lon, lat=lat, tz=tz, mode=mode, night=night, delta=delta)
    if k % 5 == 3 and not polar and len(df) > 1 and df.index.freq is not None:
        s = station(df, lon, lat, tz)
        s.statistics.temp.max_delta = delta
        call(s.disaggregate_temperature, method=method, min_max_time=mode, mod_nighttime=night)
        r = s.data_disagg.temp
    else:
        r = call(
            melodist.disaggregate_temperature, df, method=method, min_max_time=mode, mod_nighttime=night,
            max_delta=delta, sun_times=st,
        )
    check_axis(r.index, full_hours(df.index), method)
    return df, st, mode, night, delta, by_day(r, df.index)


def _min_max(k, rng, polar):
    method = 'sine_min_max' if k % 4 else 'sine'
    df, st, mode, night, delta, m = _run(k, rng, method, polar)
    mn, mx = _locs(df, st, mode, delta)
    dl = st.daylength.values.astype(float)
    pol = dl < 3
    nontriv = False
    n = len(df)
    day = pd.Timedelta(days=1)
    for i, d in enumerate(df.index):
        # neighbours by date; at the edges of the record the own values are used
        pr = i - 1 if i > 0 and df.index[i - 1] == d - day else (i if i == 0 else None)
        nx = i + 1 if i < n - 1 and df.index[i + 1] == d + day else (i if i == n - 1 else None)
        if pr is None or nx is None:
            continue
        ext = df.iloc[[pr, i, nx]][['tmin', 'tmax']].values
        if np.isnan(ext).any():
            continue
        if not pol[i] and not (12 <= mx[i] <= 23 and 0 <= mn[i] < mx[i]):
            continue
        near = pol[i] or pol[pr] or pol[nx]
        if near and not (12 <= mx[pr] <= 23 and 12 <= mx[nx] <= 23 and mn[nx] < mx[nx] and mn[pr] < mx[pr]):
            continue
        v = m[i]
        if not near:
            need(not np.isnan(v).any(), '%s: missing hours on %s', method, d)
        v = v[~np.isnan(v)]
        need(len(v) > 0, '%s: no values on %s', method, d)
        need(np.abs(v - df.tmax.iloc[i]).min() <= 1e-6, '%s: maximum of %s not attained (%s, polar=%s)', method, d, mode, near)
        need(np.abs(v - df.tmin.iloc[i]).min() <= 1e-6, '%s: minimum of %s not attained (%s, polar=%s)', method, d, mode, near)
        if not near:
            ok = np.array([df.tmin.iloc[i], df.tmax.iloc[i], df.tmax.iloc[pr], df.tmin.iloc[nx]])
        else:
            ok = ext.ravel()
        need(v.min() >= ok.min() - 1e-6 and v.max() <= ok.max() + 1e-6, '%s: hourly value of %s outside the range', method, d)
        nontriv = True
    return nontriv


@scenario('C07', 3)
def sine_min_max(k, rng):
    return _min_max(k, rng, False)


@scenario('C07')
def sine_min_max_polar(k, rng):
    return _min_max(k, rng, True)


@scenario('C08', 3)
def sine_mean(k, rng):
    df, st, mode, night, delta, m = _run(k, rng, 'sine_mean', False)
    return _mean(df, st, mode, delta, m)


@scenario('C08')
def sine_mean_polar(k, rng):
    df, st, mode, night, delta, m = _run(k, rng, 'sine_mean', True)
    return _mean(df, st, mode, delta, m)


def _mean(df, st, mode, delta, m):
    mn, mx = _locs(df, st, mode, delta)
    pol = st.daylength.values.astype(float) < 3
    nontriv = False
    for i, d in enumerate(df.index):
        if pol[max(0, i - 1):i + 2].any():
            continue
        row = df.iloc[i]
        if row.isna().any():
            need(np.isnan(m[i]).all(), 'sine_mean: values on %s although the input is missing', d)
            continue
        need(not np.isnan(m[i]).any(), 'sine_mean: missing values on %s', d)
        need(abs(m[i].mean() - row.temp) <= 1e-6, 'sine_mean: mean of %s not preserved', d)
        need(abs(m[i].max() - m[i].min() - (row.tmax - row.tmin)) <= 1e-6, 'sine_mean: range of %s not preserved', d)
        if 0 <= mx[i] <= 23:
            need(m[i].max() - m[i, mx[i]] <= 1e-6, 'sine_mean: warmest hour of %s is not hour %d', d, mx[i])
        nontriv = True
    return nontriv


def course(k, rng, months=range(1, 13)):
    c = rng.random((24, 12))
    c = (c - c.min(axis=0)) / (c.max(axis=0) - c.min(axis=0))
    return pd.DataFrame(c, index=np.arange(24), columns=np.arange(12) + 1)[list(months)]


@scenario('C09', 3)
def mean_course(k, rng):
    df = _daily(k, rng, nmax=400)
    mc = course(k, rng)
    if k % 4 == 1:  # columns in another order
        mc = mc[list(rng.permutation(12) + 1)]
    elif k % 4 == 2:  # only the months that are needed
        mc = mc[sorted(set(df.index.month))]
    elif k % 4 == 3:  # some months that are not needed missing
        mc = mc[[m for m in range(1, 13) if m in set(df.index.month) or rng.random() < 0.5]]
    note(daily=df, course=mc)
    exp = np.array([mc[d.month].values for d in df.index]).reshape(-1, 24)
    r = call(melodist.disaggregate_temperature, df, method='mean_course_min_max', mean_course=mc)
    check_axis(r.index, full_hours(df.index), 'mean course')
    m = by_day(r, df.index)
    tn, tx, tm = (df[c].values[:, None] for c in ('tmin', 'tmax', 'temp'))
    for i, d in enumerate(df.index):
        if np.isnan(tn[i, 0]) or np.isnan(tx[i, 0]):
            need(np.isnan(m[i]).all(), 'mean course: values on %s although the input is missing', d)
            continue
        need(abs(m[i].min() - tn[i, 0]) <= 1e-9 * 300 and abs(m[i].max() - tx[i, 0]) <= 1e-9 * 300, 'mean course: extremes of %s not preserved', d)
        need(m[i].argmax() == exp[i].argmax() and m[i].argmin() == exp[i].argmin(), 'mean course: course of another month used on %s', d)
    r = call(melodist.disaggregate_temperature, df, method='mean_course_mean', mean_course=mc)
    check_axis(r.index, full_hours(df.index), 'mean course')
    m = by_day(r, df.index)
    e = tm + (tx - tn) * (exp - exp.mean(axis=1, keepdims=True))
    need(close(m, e, 1e-9), 'mean-preserving mean course: wrong values')
    ok = ~np.isnan(e[:, 0])
    need(np.abs(m[ok].mean(axis=1) - tm[ok, 0]).max(initial=0) <= 1e-6, 'mean-preserving mean course: daily mean not preserved')
    return ok.any()
