"""C31-C35: meaning of the derived statistics, cascade branching, astronomy of the sun times"""
from .base import *  # noqa: F401,F403

UPPER = [0.1429, 0.2857, 0.4286, 0.5714, 0.7143, 0.8571, 1.0]


def _types(v):
    """0 starting, 1 enclosed, 2 ending, 3 isolated"""
    wet = np.concatenate([[False], v > 0, [False]])
    before, after = wet[:-2], wet[2:]
    return np.where(before & after, 1, np.where(before, 2, np.where(after, 0, 3)))


# ------------------------------------------------------------------ C31
def _count(fine, perc, tie):
    n = len(fine) // 2
    a, b = fine[0:2 * n:2], fine[1:2 * n:2]
    s = a + b
    thr = np.percentile(s[s > 0], perc)
    same = np.abs(s - thr) <= 1e-9 * (1 + abs(thr))
    up = np.where(same, tie, s > thr).astype(int)
    ty = _types(s)
    c = np.zeros((3, 2, 4))
    w = np.zeros((7, 2, 4))
    for j in np.flatnonzero(s > 0):
        k = 0 if a[j] == 0 else 1 if b[j] == 0 else 2
        c[k, up[j], ty[j]] += 1
        if k == 2:
            w[int(np.searchsorted(UPPER[:-1], a[j] / s[j], side='left')), up[j], ty[j]] += 1
    return s, c, w, thr


def _levels(fine, perc, tie):
    levels = []
    for _ in range(5):
        if not (fine > 0).any():
            return None
        fine, c, w, thr = _count(fine, perc, tie)
        levels.append((len(fine), c, w, thr))
    return levels


def _complete(alt):
    return all(a is not None and not any((l[1].sum(axis=0) == 0).any() for l in a) for a in alt)


@scenario('C31')
def frequencies(k, rng):
    perc = float(rng.choice([50, 30, 75]))
    for _ in range(12):
        n = int(rng.choice([2000, 3600, 5000]))
        idx = pd.date_range(['2001-01-01', '2003-06-10', '2000-11-20'][k % 3], periods=n, freq='h')
        # wet and dry spells from an hour to several days, so that every class of boxes occurs
        spell = np.maximum(1, np.exp(rng.uniform(0, 5.2, n)).astype(int))
        state = np.repeat(np.arange(n) % 2, spell)[:n]
        heavy = np.repeat(np.exp(rng.normal(0, 1.3, n)) * 30 / spell ** 0.5, spell)[:n]
        v = state * (rng.random(n) < rng.uniform(0.5, 0.95)) * np.round(rng.gamma(0.8, 1, n) * heavy * 16) / 16  # sums are exact
        miss = rng.random(n) < (0.1 if k % 3 == 0 else 0.0)
        dry = np.where(miss, 0.0, v)
        months = None
        if k % 2 and n > 3400:
            mm = sorted(set(idx.month))
            months = [mm[0::2], mm[1::2]]
        alts = [[_levels(dry[np.isin(idx.month, list(mo))], perc, tie) for tie in (False, True)] for mo in months or [range(1, 13)]]
        if any(_complete(alt) for alt in alts):
            break
    else:
        return False
    if any(a is None for alt in alts for a in alt):
        return False
    obs = pd.DataFrame({'precip': np.where(miss, np.nan, v)}, index=idx)
    avg = bool((k // 2) % 2)
    note(obs=obs, percentile=perc, months=repr(months), avg=avg)
    if k % 3 == 1:
        st = melodist.StationStatistics(data=obs)
        call(st.calc_precipitation_stats, months=months, avg_stats=avg, percentile=perc)
        r = st.precip.stats
    else:
        r = call(melodist.build_casc, obs, months=months, avg_stats=avg, percentile=perc)
    for c, alt in zip(r, alts):
        if not _complete(alt):
            continue  # sample values are used where a class never occurs
        good = False
        for levels in alt:
            tabs = []
            for m, cnt, w, thr in levels:
                with np.errstate(all='ignore'):
                    p, q = cnt / cnt.sum(axis=0), w / w.sum(axis=0)
                tabs.append((m, p, np.where(np.isnan(q), 1 / 7, q), thr))
            if avg:
                tot = sum(t[0] for t in tabs)
                exp = [(sum(t[0] * t[1] for t in tabs) / tot, sum(t[0] * t[2] for t in tabs) / tot, [t[3] for t in tabs])]
                got = [c]
            else:
                exp, got = [(t[1], t[2], [t[3]]) for t in tabs], list(c)
            good = good or (len(exp) == len(got) and all(
                np.abs(np.array([g.p01, g.p10, g.pxx]) - e[0]).max() < 1e-9 and np.abs(g.wxx - e[1]).max() < 1e-9
                and np.allclose(np.asarray(g.threshold, float), e[2], rtol=1e-9, atol=1e-9) for g, e in zip(got, exp)))
        need(good, 'derived probabilities are not the relative frequencies in the data')
    return True


# ------------------------------------------------------------------ C32
@scenario('C32')
def certain_branching(k, rng):
    idx = days(k, rng, nmin=2, nmax=40)
    n = len(idx)
    p = np.where(rng.random(n) < rng.uniform(0.2, 1.0), rng.gamma(0.8, 8, n) + 0.01, 0.0)
    p = np.where(rng.random(n) < (0.15 if k % 3 == 0 else 0), np.nan, p)
    s = pd.Series(p, index=idx, name='precip')

    def stats(nthr):
        c = melodist.cascade.CascadeStatistics()
        kind = rng.choice(3, size=(2, 4), p=[0.25, 0.25, 0.5])
        cls = rng.integers(0, 7, (2, 4))
        c.p01, c.p10, c.pxx = [(kind == i) * 1.0 for i in range(3)]
        c.wxx = np.array([(cls == i) * 1.0 for i in range(7)])
        c.threshold = np.round(rng.uniform(0.05, 6, nthr), 3) + 0.00017
        c.percentile = 50
        return c, kind, cls
    each = bool(k % 2)
    if each:
        allc = [stats(1) for _ in range(5)]
        opt = [c for c, _, _ in allc]
    else:
        allc = [stats(5)] * 5
        opt = allc[0][0]
    note(daily=s, per_level=each, kind=repr([a[1].tolist() for a in allc]), weight_class=repr([a[2].tolist() for a in allc]),
         threshold=repr([a[0].threshold.tolist() for a in allc]))
    np.random.seed(int(rng.integers(0, 2**31)))
    r = call(melodist.disagg_prec, s, method='cascade', cascade_options=opt) if k % 4 < 2 else call(melodist.disagg_prec_cascade, s, opt)
    x = np.nan_to_num(p)
    for lev in range(5):
        c, kind, cls = allc[4 - lev]
        thr = c.threshold[0] if each else c.threshold[4 - lev]
        if (np.abs(x - thr) < 1e-7)[x > 0].any():
            return False
        ty, up = _types(x), (x > thr).astype(int)
        w = np.array(UPPER)[cls[up, ty]] - 1 / 14
        first = np.where(kind[up, ty] == 0, 0.0, np.where(kind[up, ty] == 1, 1.0, w))
        y = np.zeros(2 * len(x))
        y[0::2], y[1::2] = first * x, (1 - first) * x
        y[np.repeat(x, 2) == 0] = 0
        x = y
    exp = np.repeat(x / 3, 3).reshape(-1, 4).sum(axis=1)
    got = by_day(r, idx)
    exp = np.where(np.isnan(p)[:, None], np.nan, exp.reshape(n, 24))
    tol = 1e-6 * (1 + np.nansum(p))
    need((np.isnan(got) == np.isnan(exp)).all(), 'missing hours')
    need(np.nanmax(np.abs(got - exp), initial=0) <= tol, 'branching does not follow the statistics of the class of the box')
    return bool((x > 0).any())


# ------------------------------------------------------------------ C33
def _astronomy(idx):
    """declination (rad) and equation of time (h) at noon, low precision formulas of the Astronomical Almanac"""
    n = ((idx + pd.Timedelta(hours=12)) - pd.Timestamp('2000-01-01 12:00')) / pd.Timedelta(days=1)
    n = np.asarray(n, float)
    L = np.deg2rad((280.460 + 0.9856474 * n) % 360)
    g = np.deg2rad((357.528 + 0.9856003 * n) % 360)
    lam = L + np.deg2rad(1.915 * np.sin(g) + 0.020 * np.sin(2 * g))
    eps = np.deg2rad(23.439 - 4e-7 * n)
    dec = np.arcsin(np.sin(eps) * np.sin(lam))
    ra = np.arctan2(np.cos(eps) * np.sin(lam), np.cos(lam))
    e = (np.rad2deg(L - ra) + 180) % 360 - 180
    return dec, e / 15


@scenario('C33')
def astronomy(k, rng):
    idx = days(k, rng, nmin=3, nmax=400)
    idx = idx[(idx >= '1970-01-01') & (idx < '2050-01-01')]
    if len(idx) == 0:
        return False
    lat = float(rng.uniform(-55, 55))
    lon, tz = float(rng.uniform(-180, 180)), float(rng.integers(-11, 12))
    note(days=idx, lon=lon, lat=lat, tz=tz)
    r = call(melodist.util.get_sun_times, idx, lon, lat, tz)
    dec, eot = _astronomy(idx)
    half = np.arccos(-np.tan(np.deg2rad(lat)) * np.tan(dec)) * 12 / np.pi
    noon = 12 - (lon - 15 * tz) / 15 - eot
    md = lambda x: np.abs((x + 12) % 24 - 12)
    need(md(r.sunnoon.values.astype(float) - noon).max() <= NOON, 'solar noon differs from the astronomical one')
    need(np.abs(r.daylength.values.astype(float) - 2 * half).max() <= LENGTH, 'day length differs from the astronomical one')
    need(md(r.sunrise.values.astype(float) - (noon - half)).max() <= NOON + LENGTH, 'sunrise differs from the astronomical one')
    need(md(r.sunset.values.astype(float) - (noon + half)).max() <= NOON + LENGTH, 'sunset differs from the astronomical one')
    return True


NOON, LENGTH = 0.02, 0.06


# ------------------------------------------------------------------ C34
@scenario('C34')
def shift_of_maximum(k, rng):
    n = int(rng.choice([3, 20, 70, 400]))
    idx = pd.date_range(STARTS[k % len(STARTS)], periods=24 * n, freq='h')
    v = rng.uniform(260, 300, len(idx))
    gone = np.zeros(len(idx), bool)
    if k % 3 == 1 and n > 3:  # days without any row
        gone = np.repeat(rng.random(n) < 0.2, 24)
        gone[:24] = False
    v[rng.random(len(idx)) < (0.1 if k % 2 else 0)] = np.nan
    t = pd.Series(v, index=idx)[~gone]
    t = t[~t.index.normalize().isin([d for d in set(t.index.normalize()) if t[t.index.normalize() == d].isna().all()])] if n < 30 else t
    lon, lat = float(rng.uniform(-180, 180)), float(rng.uniform(-65, 65))
    tz = float(round(lon / 15))
    note(temp=t, lon=lon, lat=lat, tz=tz)
    acc = {}
    for d, g in t.groupby(t.index.normalize()):
        if g.isna().all():
            return False
        noon = float(melodist.util.get_sun_times(pd.DatetimeIndex([d]), lon, lat, tz).sunnoon.iloc[0])
        acc.setdefault(d.month, []).append(g.index[int(np.nanargmax(g.values))].hour - noon)
    if k % 2:
        r = call(melodist.get_shift_by_data, t, lon, lat, tz)
    else:
        st = melodist.StationStatistics(data=pd.DataFrame({'temp': t}), lon=lon, lat=lat, timezone=tz)
        call(st.calc_temperature_stats)
        r = st.temp.max_delta
    need(set(acc) <= set(r.index) and r.drop(list(acc)).isna().all(), 'months of the shifts')
    for m, x in acc.items():
        need(abs(float(r.loc[m]) - np.mean(x)) < 1e-6, 'shift of month %s is not the mean time from solar noon to the maximum', m)
    return True


# ------------------------------------------------------------------ C35
def _year(rng, n=366):
    return pd.date_range('2012-01-01', periods=24 * n, freq='h')


@scenario('C35')
def radiation_parameters(k, rng):
    st = melodist.StationStatistics()
    need(list(st.glob.angstroem.index) == list(range(1, 13)) and (st.glob.angstroem.a == 0.25).all() and (st.glob.angstroem.b == 0.75).all()
         and list(st.glob.bristcamp.index) == list(range(1, 13)) and (st.glob.bristcamp.a == 0.75).all() and (st.glob.bristcamp.c == 2.4).all(),
         'default parameters of the radiation models')
    hi = _year(rng)
    lon, lat = float(rng.uniform(5, 15)), float(rng.uniform(-50, 55))
    idx = hi[::24]
    how = ['all', 'seasonal', 'monthly'][k % 3]
    season = {'all': lambda m: 0, 'seasonal': lambda m: m % 12 // 3, 'monthly': lambda m: m - 1}[how]
    A, B = rng.uniform(0.1, 0.35, 12), rng.uniform(0.4, 0.7, 12)
    grp = np.array([season(m) for m in idx.month])
    st = melodist.StationStatistics(data=pd.DataFrame({'glob': np.zeros(len(hi))}, index=hi), lon=lon, lat=lat, timezone=1)
    dl = call(melodist.util.get_sun_times, idx, lon, lat, 1).daylength.astype(float)
    ssd = pd.Series(rng.random(len(idx)), index=idx) * dl
    ssd[rng.random(len(idx)) < (0.05 if k % 2 else 0)] = np.nan
    pot = call(melodist.potential_radiation, hi, lon, lat, 1)
    share = np.nan_to_num(A[grp] + B[grp] * (ssd / dl).values)
    st.data['glob'] = pot.values * np.repeat(share, 24)
    note(lon=lon, lat=lat, ssd=ssd, a=A, b=B, how=how)
    call(st.calc_radiation_stats, data_daily=pd.DataFrame({'ssd': ssd}), day_length=dl, how=how)
    r = st.glob.angstroem
    need(list(r.index) == list(range(1, 13)), 'months of the parameters')
    for m in range(1, 13):
        g = season(m)
        need(abs(float(r.a.loc[m]) - A[g]) < 1e-4 and abs(float(r.b.loc[m]) - B[g]) < 1e-4,
             'parameters of month %s (%s) are not those the data were made with', m, how)
    need((st.glob.bristcamp.a == 0.75).all() and (st.glob.bristcamp.c == 2.4).all(), 'parameters of the other model changed')
    return True


@scenario('C35')
def humidity_and_wind_parameters(k, rng):
    n = int(rng.choice([20, 60]))
    hi = pd.date_range(STARTS[k % len(STARTS)], periods=24 * n, freq='h')
    day = np.repeat(np.arange(n), 24)
    hour = np.tile(np.arange(24), n)
    a0, a1 = float(rng.uniform(-20, 10)), float(rng.uniform(0.95, 1.02))
    tmin = rng.uniform(250, 285, n)
    T = tmin[day] + 8 * np.abs(np.sin((hour - 5) * np.pi / 24)) + 25
    tmin = np.array([T[day == i].min() for i in range(n)])
    td = a0 + a1 * tmin
    # air above freezing: the dew point is that over water
    e = lambda t: 6.112 * np.exp(17.62 * (t - 273.15) / (243.12 + t - 273.15))
    hum = 100 * e(td[day]) / e(T)
    if hum.max() > 100 or hum.min() <= 0 or T.min() < 273.2:
        return False
    a, b, ts = float(rng.uniform(0.1, 0.5)), 1.0, float(rng.uniform(-3, 3))
    mean = rng.uniform(1, 8, n)
    wind = mean[day] * (a * np.cos(np.pi * (hour - ts) / 12) + b)
    df = pd.DataFrame({'temp': T, 'hum': hum, 'wind': wind, 'precip': 0.0}, index=hi)
    note(temp=T, hum=hum, wind=wind, a0=a0, a1=a1, a=a, b=b, t_shift=ts)
    st = melodist.StationStatistics(data=df)
    call(st.calc_humidity_stats)
    need(abs(st.hum.a1 - a1) < 1e-6 and abs(st.hum.a0 - a0) < 1e-3, 'dew point regression: %s %s', st.hum.a0, st.hum.a1)
    need(st.hum.kr == 12, 'kr')
    call(st.calc_wind_stats)
    w = st.wind
    got = mean[day] * (w.a * np.cos(np.pi * (hour - w.t_shift) / 12) + w.b)
    need(np.abs(got - wind).max() < 1e-4 * wind.max(), 'the fitted cosine does not reproduce the wind it was fitted to')
    return True
