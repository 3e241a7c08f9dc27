"""C10-C19, C21-C24, C27, C28: humidity, wind, radiation, sun times, statistics, station"""
from .base import *  # noqa: F401,F403
from .temp import course


# ------------------------------------------------------------------ C10 / C11
HMETHODS = ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max', 'month_hour_precip_mean')


def _hum_input(k, rng):
    idx = days(k, rng, nmin=1, nmax=40)
    n = len(idx)
    tmin, tmax, tmean = tmin_tmax(k, rng, n)
    p = [0.0, 0.1, 0.4][int(rng.integers(0, 3))]
    df = pd.DataFrame(
        {
            'hum': holes(k, rng, rng.uniform(0, 100, n), p),
            'hum_min': holes(k, rng, rng.uniform(0, 50, n), p),
            'hum_max': holes(k, rng, rng.uniform(50, 100, n), p),
            'tmin': holes(k, rng, tmin, p),
            'tmax': holes(k, rng, tmax, p),
            'precip': holes(k, rng, precip(k, rng, n), p),
        },
        index=idx,
    )
    hi = full_hours(idx)
    t = tmin.repeat(24) + (tmax - tmin).repeat(24) * rng.random(24 * n)
    if k % 3 == 0:
        t[rng.random(24 * n) < 0.2] = 273.15
    for i in range(n):
        t[24 * i + int(rng.integers(0, 24))] = tmin[i]
        t[24 * i + int(rng.integers(0, 24))] = tmax[i]
    temp = pd.Series(holes(k, rng, t, p / 2), index=hi)
    mi = pd.MultiIndex.from_product([range(1, 13), range(24), [False, True]])
    mhpm = pd.Series(rng.uniform(-10, 120, len(mi)), index=mi)
    return df, temp, mhpm


@scenario('C10', 2)
def humidity_bounds(k, rng):
    df, temp, mhpm = _hum_input(k, rng)
    method = HMETHODS[k % 6]
    pres = bool(rng.integers(0, 2))
    a0, a1, kr = float(rng.uniform(-30, 30)), float(rng.uniform(0.9, 1.1)), int(rng.choice([6, 12]))
    note(daily=df, temp=temp, method=method, preserve=pres, a0=a0, a1=a1, kr=kr)
    r = call(
        melodist.disaggregate_humidity, df, method=method, temp=temp, a0=a0, a1=a1, kr=kr,
        month_hour_precip_mean=mhpm, preserve_daily_mean=pres,
    )
    check_axis(r.index, temp.index, method)
    m = by_day(r, df.index)
    v = m[~np.isnan(m)]
    need(v.size == 0 or (v.min() >= 0 and v.max() <= 100), '%s: humidity outside 0..100', method)
    T = by_day(temp, df.index)
    z = lambda c: np.repeat(df[c].isna().values[:, None], 24, axis=1)
    if method == 'equal':
        miss = z('hum')
    elif method in ('minimal', 'dewpoint_regression'):
        miss = z('tmin') | np.isnan(T)
    elif method == 'linear_dewpoint_variation':
        nxt = np.concatenate([z('tmin')[1:], z('tmin')[-1:]])
        miss = z('tmin') | nxt | np.isnan(T)
    elif method == 'min_max':
        miss = z('tmin') | z('tmax') | z('hum_min') | z('hum_max') | np.isnan(T)
    else:
        miss = np.zeros(m.shape, bool)
    need((np.isnan(m) == miss).all(), '%s: missing values differ from those of the inputs', method)
    return not miss.all()


@scenario('C11', 2)
def humidity_relations(k, rng):
    df, temp, mhpm = _hum_input(k, rng)
    T = by_day(temp, df.index)
    note(daily=df, temp=temp)
    r = call(melodist.disaggregate_humidity, df, method='min_max', temp=temp)
    m = by_day(r, df.index)
    c = lambda n: df[n].values[:, None]
    exp = c('hum_max') + (T - c('tmin')) / (c('tmax') - c('tmin')) * (c('hum_min') - c('hum_max'))
    need(close(m, np.clip(exp, 0, 100), 1e-9), 'min_max: not linear between the extremes of the day')
    a0, a1 = (0.0, 1.0) if k % 2 else (float(rng.uniform(-20, 20)), float(rng.uniform(0.95, 1.05)))
    meth = 'minimal' if k % 2 else 'dewpoint_regression'
    td = a0 + a1 * c('tmin') + 0 * T
    sel = rng.random(T.shape) < 0.3
    T2 = np.where(sel & ~np.isnan(td), td, T)
    t2 = pd.Series(T2.ravel(), index=temp.index)
    r = call(melodist.disaggregate_humidity, df, method=meth, temp=t2, a0=a0, a1=a1)
    m = by_day(r, df.index)
    ok = ~np.isnan(T2) & ~np.isnan(td)
    eq = ok & (T2 == td)
    need(np.abs(m[eq] - 100).max(initial=0) <= 1e-6, '%s: not saturated at the dew point', meth)
    need((m[ok & (T2 < td)] >= 100 - 1e-6).all(), '%s: not saturated below the dew point', meth)
    ab = ok & (T2 > td + 1e-3)
    need((m[ab] < 100).all(), '%s: saturated above the dew point', meth)
    # a dew point that moves linearly to that of the following day and swings by half a degree
    kr = int(rng.choice([6, 12]))
    td = a0 + a1 * c('tmin') + 0 * T
    h = np.arange(24)[None, :]
    td = td + h / 24 * (np.concatenate([td[1:], td[-1:]]) - td) + 0.5 * np.sin((h + 1) * np.pi / kr - 3 * np.pi / 4)
    note(kr=kr)
    T3 = np.where(sel & ~np.isnan(td), td, T)
    r = call(melodist.disaggregate_humidity, df, method='linear_dewpoint_variation', temp=pd.Series(T3.ravel(), index=temp.index), a0=a0, a1=a1, kr=kr)
    m = by_day(r, df.index)
    ok3 = ~np.isnan(T3) & ~np.isnan(td)
    need(np.abs(m[ok3 & (np.abs(T3 - td) < 1e-9)] - 100).max(initial=0) <= 1e-6, 'linear variation: not saturated at the dew point')
    need((m[ok3 & (T3 < td)] >= 100 - 1e-6).all(), 'linear variation: not saturated below the dew point')
    need((m[ok3 & (T3 > td + 1e-3)] < 100).all(), 'linear variation: saturated above the dew point')
    return ok.any()


@scenario('C11', 2)
def humidity_mean(k, rng):
    df, temp, mhpm = _hum_input(k, rng)
    method = HMETHODS[k % 6]
    a0, a1, kr = float(rng.uniform(-10, 5)), 1.0, 12
    mhpm = mhpm.clip(20, 80)
    df['hum'] = df.hum.clip(30, 70)
    note(daily=df, temp=temp, method=method, a0=a0)
    kw = dict(method=method, temp=temp, a0=a0, a1=a1, kr=kr, month_hour_precip_mean=mhpm)
    raw = by_day(call(melodist.disaggregate_humidity, df, **kw), df.index)
    m = by_day(call(melodist.disaggregate_humidity, df, preserve_daily_mean=True, **kw), df.index)
    hit = False
    for i, d in enumerate(df.index):
        if np.isnan(raw[i]).all():
            continue
        if np.isnan(df.hum.iloc[i]):
            need(close(m[i], raw[i], 1e-9), '%s: day %s without observed mean was changed', method, d)
        elif np.nanmin(raw[i]) > 0 and np.nanmax(raw[i]) < 100 and np.nanmin(m[i]) > 0 and np.nanmax(m[i]) < 100:
            need(abs(np.nanmean(m[i]) - df.hum.iloc[i]) <= 1e-6, '%s: daily mean of %s not preserved', method, d)
            need(close(m[i] - raw[i], np.where(np.isnan(raw[i]), np.nan, np.nanmean(m[i] - raw[i])), 1e-6), '%s: correction of %s not uniform', method, d)
            hit = True
    return hit


# ------------------------------------------------------------------ C12
@scenario('C12', 3)
def vapour(k, rng):
    n = int(rng.choice([1, 2, 50]))
    T = rng.uniform(200, 340, n)
    T[rng.random(n) < 0.3] = 273.15
    if k % 3 == 0:
        T = 273.15 + rng.uniform(-1e-3, 1e-3, n)
    H = rng.uniform(1e-3, 100, n)
    H[rng.random(n) < 0.3] = 100.0
    miss = rng.random(n) < 0.2
    wrap = (lambda a: pd.Series(a)) if k % 2 else (lambda a: a)
    T, H = np.where(miss, np.nan, T), np.where(rng.random(n) < 0.1, np.nan, H)
    note(temp=T, hum=H)
    td = np.asarray(call(melodist.util.dewpoint_temperature, wrap(T), wrap(H)), dtype=float)
    vp = np.asarray(call(melodist.util.vapor_pressure, wrap(T), wrap(H)), dtype=float)
    nan = np.isnan(T) | np.isnan(H)
    need((np.isnan(td) == nan).all() and (np.isnan(vp) == nan).all(), 'missing values not propagated')
    o = ~nan
    need((td[o] <= T[o] + 1e-6).all(), 'dew point above temperature')
    s = o & (H == 100)
    need(np.abs(td[s] - T[s]).max(initial=0) <= 1e-6, 'dew point of saturated air differs from temperature')
    need((vp[o] > 0).all(), 'vapour pressure not positive')
    sat = np.asarray(call(melodist.util.vapor_pressure, wrap(T), 100), dtype=float)
    need(close(vp, sat * H / 100, 1e-9), 'vapour pressure not proportional to humidity')
    T2 = T + rng.uniform(1e-4, 5, n)
    sat2 = np.asarray(call(melodist.util.vapor_pressure, wrap(T2), 100), dtype=float)
    oo = ~np.isnan(T)
    need((sat2[oo] > sat[oo]).all(), 'saturation vapour pressure does not increase with temperature')
    return o.any()


# ------------------------------------------------------------------ C13
@scenario('C13', 3)
def wind(k, rng):
    idx = days(k, rng)
    s = pd.Series(holes(k, rng, rng.gamma(2, 2, len(idx)) * (rng.random(len(idx)) < 0.9)), index=idx)
    a, b, ts = float(rng.uniform(-1, 1)), float(rng.uniform(0, 2)), float(rng.choice([rng.uniform(-30, 30), 14.0, 0.0]))
    note(daily=s, a=a, b=b, t_shift=ts)
    r = call(melodist.disaggregate_wind, s, method='equal')
    check_axis(r.index, full_hours(idx), 'wind')
    rep = np.repeat(s.values[:, None], 24, axis=1)
    need(close(by_day(r, idx), rep), 'equal wind: hour differs from daily value')
    r = call(melodist.disaggregate_wind, s, method='cosine', a=a, b=b, t_shift=ts)
    need(len(r) == 24 * len(idx), 'cosine wind: wrong length')
    m = np.asarray(r, dtype=float).reshape(len(idx), 24)
    need(close(m, a * rep * np.cos(2 * np.pi * (np.arange(24) - ts) / 24) + b * rep, 1e-9), 'cosine wind: wrong course')
    need(close(m.mean(axis=1), b * s.values, 1e-9), 'cosine wind: mean is not b times the daily value')
    seed = int(rng.integers(0, 2**31))
    np.random.seed(seed)
    r1 = call(melodist.disaggregate_wind, s, method='random')
    np.random.seed(seed)
    r2 = call(melodist.disaggregate_wind, 3 * s, method='random')
    check_axis(r1.index, full_hours(idx), 'wind')
    m1, m2 = by_day(r1, idx), by_day(r2, idx)
    need((np.isnan(m1) == np.isnan(rep)).all(), 'random wind: missing values changed')
    need((m1[~np.isnan(m1)] >= 0).all(), 'random wind: negative speed')
    need(close(m2, 3 * m1, 1e-9), 'random wind: not proportional to the daily value')
    return s.notna().any()


# ------------------------------------------------------------------ C14
@scenario('C14', 2)
def radiation_mean(k, rng):
    idx = days(k, rng, nmin=1, nmax=40)
    hi = full_hours(idx)
    n = len(idx)
    glob = np.where(rng.random(n) < 0.2, 0.0, rng.uniform(0, 400, n))
    if k % 5 == 0:
        glob = 10.0 ** rng.uniform(-4, 2, n)
    df = pd.DataFrame({'glob': holes(k, rng, glob, 0.15)}, index=idx)
    method = 'mean_course' if k % 3 == 2 else 'pot_rad'
    kw = {}
    if method == 'pot_rad':
        if k % 2:
            lat = float(rng.choice([70, 80, -75, 50, 0, -90, 90, 66.5]))
            pot = call(melodist.potential_radiation, hi, 10.0, lat, 1)
        else:
            pot = pd.Series(np.where(rng.random(24 * n) < 0.5, 0.0, rng.uniform(0, 900, 24 * n)), index=hi)
            pot[np.repeat(rng.random(n) < 0.2, 24)] = 0.0
        kw['pot_rad'] = pot
    else:
        mc = course(k, rng) * 300
        mc[mc < 60] = 0.0
        if k % 4 == 0:
            mc = mc[list(rng.permutation(12) + 1)]
        if k % 2:
            mc[[12, 1]] = 0.0
        pot = pd.Series([mc.loc[t.hour, t.month] for t in hi], index=hi)
        kw['mean_course'] = mc
    st = call(melodist.util.get_sun_times, idx, 10.0, 50.0, 1)
    note(daily=df, method=method, pot=pot)
    r = call(melodist.disaggregate_radiation, df, sun_times=st, method=method, **kw)
    check_axis(r.index, hi, method)
    m, P = by_day(r, idx), by_day(pot, idx)
    hit = False
    for i, d in enumerate(idx):
        g = df.glob.iloc[i]
        if np.isnan(g):
            need(np.isnan(m[i]).all(), 'radiation on %s although the observation is missing', d)
            continue
        need(not np.isnan(m[i]).any() and (m[i] >= 0).all(), 'missing or negative radiation on %s', d)
        need((m[i][P[i] == 0] == 0).all(), 'radiation without potential radiation on %s', d)
        if P[i].sum() == 0:
            need((m[i] == 0).all(), 'radiation during polar night on %s', d)
            continue
        e = P[i] / P[i].mean() * g
        tol = 1e-9 * (1 + np.abs(e))
        need(((np.abs(m[i] - e) <= tol) | ((m[i] == 0) & (e < 1e-2 + tol))).all(), 'not proportional to potential radiation on %s', d)
        need((m[i][e < 1e-2 - 1e-9] == 0).all(), 'values below 0.01 kept on %s', d)
        need(abs(m[i].mean() - g) <= 1e-2, 'daily mean of %s not preserved', d)
        hit = hit or g > 0
    return hit


# ------------------------------------------------------------------ C15
@scenario('C15', 3)
def potential(k, rng):
    n = 60
    t0 = pd.Timestamp(STARTS[k % len(STARTS)])
    t = t0 + pd.to_timedelta(rng.integers(0, 366 * 24 * 60, n), unit='min')
    t = pd.DatetimeIndex(sorted(set(t)))
    lat = float(rng.choice([-90, 90, 0, 23.43697, 66.6, rng.uniform(-90, 90), rng.uniform(-90, 90)]))
    lon, tz = float(rng.uniform(-180, 180)), float(rng.integers(-12, 13))
    if k % 3 == 0:
        lon = tz * 15.0
        t = pd.date_range(t0 + pd.Timedelta(days=int(rng.integers(0, 366))), periods=24, freq='h')
    slope = float(rng.choice([0.0, rng.uniform(0, np.pi / 2)]))
    az = float(rng.uniform(-np.pi, np.pi)) if slope else 0.0
    cf = float(rng.choice([0.0, 1.0, rng.random()]))
    note(dates=t, lon=lon, lat=lat, tz=tz, slope=slope, azimuth=az, cloud=cf)
    kw = dict(terrain_slope=slope, terrain_slope_azimuth=az, cloud_fraction=cf)
    tot = call(melodist.potential_radiation, t, lon, lat, tz, **kw)
    sp = call(melodist.potential_radiation, t, lon, lat, tz, split=True, **kw)
    check_axis(tot.index, t, 'potential radiation')
    v, di, df_ = tot.values.astype(float), sp.direct.values.astype(float), sp.diffuse.values.astype(float)
    need(not np.isnan(v).any() and not np.isnan(di).any() and not np.isnan(df_).any(), 'undefined potential radiation')
    need((v >= 0).all() and (di >= 0).all() and (df_ >= 0).all(), 'negative potential radiation')
    need((v <= 0.8 * 1367 * 1.0367).all(), 'potential radiation above its bound')
    need(close(v, di + df_, 1e-9), 'direct plus diffuse differs from total')
    if cf == 0:
        need((df_ == 0).all(), 'diffuse radiation under a clear sky')
    if cf == 1:
        need((di == 0).all(), 'direct radiation under an overcast sky')
    decl = np.deg2rad(23.43697) * np.cos(2 * np.pi * (t.dayofyear.values - 173.0) / 365.25)
    ha = np.pi * ((t.hour.values + t.minute.values / 60.0 + (lon - tz * 15.0) / 15.0) / 12.0 - 1)
    cz = np.sin(decl) * np.sin(np.deg2rad(lat)) + np.cos(decl) * np.cos(np.deg2rad(lat)) * np.cos(ha)
    if slope == 0:
        need((v[cz < -1e-12] == 0).all(), 'radiation with the sun below the horizon')
        need((v[cz > 1e-6] > 0).all(), 'no radiation with the sun above the horizon')
    return (v > 0).any()


# ------------------------------------------------------------------ C16
@scenario('C16', 2)
def angstroem(k, rng):
    idx = days(k, rng, nmin=1, nmax=40)
    n = len(idx)
    dl = rng.uniform(0.5, 24, n)
    ssd = holes(k, rng, dl * rng.choice([0.0, 1.0, rng.random()], n), 0.1)
    pot = rng.uniform(0, 400, n)
    mon = bool(k % 2)
    a = pd.Series(rng.uniform(0, 0.5, 12), index=np.arange(12) + 1) if mon else 0.25
    b = pd.Series(rng.uniform(0, 0.5, 12), index=np.arange(12) + 1) if mon else 0.5
    S = lambda v: pd.Series(v, index=idx)
    note(ssd=S(ssd), daylength=S(dl), pot=S(pot), a=a, b=b)
    r = call(melodist.angstroem, S(ssd), S(dl), S(pot), a, b)
    av = a.loc[idx.month].values if mon else a
    bv = b.loc[idx.month].values if mon else b
    need(len(r) == n and close(np.asarray(r, float), (av + bv * ssd / dl) * pot, 1e-9), 'Angstroem model: wrong value')
    # within the disaggregation, incl. days without daylight
    dl2 = np.where(rng.random(n) < 0.3, 0.0, dl)
    st = pd.DataFrame({'sunrise': 6.0, 'sunnoon': 12.0, 'sunset': 18.0, 'daylength': dl2}, index=idx)
    hi = full_hours(idx)
    P = pd.Series(rng.uniform(0, 900, 24 * n), index=hi)
    df = pd.DataFrame({'ssd': np.minimum(ssd, dl)}, index=idx)
    r = call(melodist.disaggregate_radiation, df, sun_times=st, pot_rad=P, method='pot_rad_via_ssd', angstr_a=a, angstr_b=b)
    m = by_day(r, idx)
    pm = by_day(P, idx).mean(axis=1)
    with np.errstate(all='ignore'):
        e = np.where(dl2 > 0, (av + bv * df.ssd.values / dl2) * pm, 0.0)
    need(close(np.isnan(m[:, 0]), np.isnan(e)), 'pot_rad_via_ssd: missing values')
    ok = ~np.isnan(e)
    need(np.abs(m[ok].mean(axis=1) - e[ok]).max(initial=0) <= 1.1e-2, 'pot_rad_via_ssd: wrong daily mean')
    return ok.any()


@scenario('C16', 2)
def bristow(k, rng):
    idx = days(k, rng, nmin=1, nmax=90)
    n = len(idx)
    tmin = rng.uniform(270, 272, n)
    tmax = rng.uniform(272.5, 290, n)
    pot = rng.uniform(0, 400, n)
    mon = bool(k % 2)
    A = pd.Series(rng.uniform(0.2, 0.9, 12), index=np.arange(12) + 1) if mon else 0.75
    C = pd.Series(rng.uniform(0.5, 3, 12), index=np.arange(12) + 1) if mon else 2.4
    S = lambda v: pd.Series(v, index=idx)
    note(tmin=S(tmin), tmax=S(tmax), pot=S(pot), A=A, C=C)
    r = np.asarray(call(melodist.bristow_campbell, S(tmin), S(tmax), S(pot), A, C), float)
    nxt = np.full(n, np.nan)
    for i in range(n):
        if i == n - 1:
            nxt[i] = tmin[i]
        elif idx[i + 1] == idx[i] + pd.Timedelta(days=1):
            nxt[i] = tmin[i + 1]
    dT = tmax - (tmin + nxt) / 2
    mm = pd.Series(dT).groupby(idx.month).transform('mean').values
    B = 0.036 * np.exp(-0.154 * mm)
    Av = A.loc[idx.month].values if mon else A
    Cv = C.loc[idx.month].values if mon else C
    e = Av * (1 - np.exp(-B * dT**Cv)) * pot
    need(r.shape == e.shape and close(r, e, 1e-9), 'Bristow-Campbell model: wrong value')
    ok = ~np.isnan(e)
    need((r[ok] >= 0).all() and (r[ok] <= (Av * pot)[ok] + 1e-9).all(), 'Bristow-Campbell model: outside 0..A*pot')
    return ok.any()


# ------------------------------------------------------------------ C17
@scenario('C17', 3)
def sun_times(k, rng):
    idx = days(k, rng, nmin=1, nmax=800)
    lat = float(rng.choice([0, 66.56, -66.56, 70, 89.9, -89.9, 50, rng.uniform(-89, 89), rng.uniform(-89, 89)]))
    lon, tz = float(rng.uniform(-180, 180)), float(rng.integers(-12, 13))
    if k % 2:
        tz = float(round(lon / 15))
    note(days=idx, lon=lon, lat=lat, tz=tz)
    f = melodist.util.get_sun_times
    r = call(f, idx, lon, lat, tz)
    check_axis(r.index, idx, 'sun times')
    V = lambda d, c: d[c].values.astype(float)
    rise, noon, sset, dl = (V(r, c) for c in ('sunrise', 'sunnoon', 'sunset', 'daylength'))
    for a in (rise, noon, sset, dl):
        need(np.isfinite(a).all(), 'undefined sun times')
    need((dl >= 0).all() and (dl <= 24 + 1e-9).all(), 'day length outside 0..24')
    md = lambda x: np.abs((x + 12) % 24 - 12)
    need(md(sset - rise - dl).max() <= 1e-6, 'day length is not sunset minus sunrise')
    need(md(noon - rise - dl / 2).max() <= 1e-6, 'noon is not midway between sunrise and sunset')
    if tz == round(lon / 15):
        need((rise >= 0).all() and (rise <= 24).all() and (sset >= 0).all() and (sset <= 24 + 1e-9).all(), 'sun times outside 0..24 h')
    o = call(f, idx, lon, -lat, tz)
    need(np.abs(V(o, 'daylength') + dl - 24).max() <= 1e-6, 'day lengths at opposite latitudes do not add up to 24 h')
    for r2 in (call(f, idx, lon + 15, lat, tz), call(f, idx, lon, lat, tz - 1)):
        need(np.abs(V(r2, 'daylength') - dl).max() <= 1e-6, 'day length depends on longitude or time zone')
        need(np.abs(V(r2, 'sunnoon') + 1 - noon).max() <= 1e-6, 'noon does not shift by one hour')
        for c, v in (('sunrise', rise), ('sunset', sset)):
            need(md(V(r2, c) + 1 - v).max() <= 1e-6, '%s does not shift by one hour' % c)
    if abs(lat) > 67:
        dec = idx.month == 12
        jun = idx.month == 6
        north = lat > 0
        if abs(lat) > 70:
            core_d = dec & (idx.day > 8)
            core_j = jun & (idx.day > 8)
            need((np.abs(dl[core_d] - (0 if north else 24)) < 1e-9).all(), 'no polar night / midnight sun in December')
            need((np.abs(dl[core_j] - (24 if north else 0)) < 1e-9).all(), 'no midnight sun / polar night in June')
    if 1 < abs(lat) < 60:
        s = 1 if lat > 0 else -1
        need((s * (dl[idx.month == 6] - 12) > 0).all() and (s * (12 - dl[idx.month == 12]) > 0).all(), 'seasons reversed')
    return True


# ------------------------------------------------------------------ C18
def hourly_frame(k, rng, n=None, cols=('temp', 'precip', 'glob', 'hum', 'wind', 'ssd')):
    n = n or int(rng.choice([1, 5, 24, 30, 100, 900]))
    idx = pd.date_range(
        pd.Timestamp(STARTS[k % len(STARTS)]) + pd.Timedelta(hours=int(rng.integers(0, 30))), periods=n, freq='h'
    )
    if k % 3 == 2:
        keep = rng.random(n) < 0.8
        keep[0] = True
        idx = idx[keep]
    elif k % 7 == 3 and n > 50:
        idx = idx[:20].append(idx[20:] + pd.Timedelta(days=3))
    d = {
        'temp': rng.uniform(250, 300, len(idx)), 'precip': np.where(rng.random(len(idx)) < 0.7, 0, rng.gamma(1, 2, len(idx))),
        'glob': rng.uniform(0, 800, len(idx)), 'hum': rng.uniform(5, 100, len(idx)), 'wind': rng.gamma(2, 2, len(idx)),
        'ssd': rng.uniform(0, 60, len(idx)),
    }
    p = [0.0, 0.1, 0.6][int(rng.integers(0, 3))]
    return pd.DataFrame({c: holes(k, rng, d[c], p) for c in cols}, index=idx)


@scenario('C18', 3)
def aggregate_days(k, rng):
    allc = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']
    cols = allc if k % 2 else [c for c in allc if rng.random() < 0.6] or ['hum']
    df = hourly_frame(k, rng, cols=cols)
    note(hourly=df)
    r = call(melodist.util.daily_from_hourly, df)
    out = {'temp': ['temp', 'tmin', 'tmax'], 'precip': ['precip'], 'glob': ['glob'], 'hum': ['hum', 'hum_min', 'hum_max'], 'wind': ['wind'], 'ssd': ['ssd']}
    need(set(r.columns) == {o for c in cols for o in out[c]}, 'wrong set of daily variables %s', list(r.columns))
    for d in sorted(set(df.index.normalize())):
        sub = df[df.index.normalize() == d]
        need(d in r.index, 'day %s is absent', d)
        row = r.loc[d]

        def chk(name, exp):
            got = row[name]
            need((np.isnan(got) and np.isnan(exp)) or abs(got - exp) <= 1e-9 * (1 + abs(exp)), '%s of %s is %s instead of %s', name, d, got, exp)

        for c in cols:
            v = sub[c].dropna().values
            has = len(v) > 0
            if c in ('temp', 'glob', 'hum', 'wind'):
                chk(c, v.mean() if has else np.nan)
            if c in ('temp', 'hum'):
                a, b = out[c][1:]
                chk(a, v.min() if has else np.nan)
                chk(b, v.max() if has else np.nan)
            if c == 'precip':
                chk(c, v.sum())
            if c == 'ssd':
                chk(c, v.sum() / 60)
    need(r.index.is_monotonic_increasing and not r.index.has_duplicates, 'daily axis not increasing')
    return len(df) > 24


# ------------------------------------------------------------------ C19
@scenario('C19', 2)
def courses(k, rng):
    n = int(rng.choice([30, 200, 2500, 9000], p=[0.3, 0.3, 0.3, 0.1]))
    df = hourly_frame(k, rng, n=n)
    note(hourly=df)
    s = df.temp
    for norm in (False, True):
        kw = {} if k % 2 and not norm else {'normalize': norm}
        r = call(melodist.util.calculate_mean_daily_course_by_month, s, **kw)
        obs = s.groupby([s.index.month, s.index.hour])
        keys = {(m, h): g.dropna().values for (m, h), g in obs}
        need(set(r.columns) == {m for m, h in keys}, 'months of the mean course')
        need(set(r.index) == {h for m, h in keys}, 'hours of the mean course')
        for m in r.columns:
            col = np.array([keys.get((m, h), np.array([])).mean() if len(keys.get((m, h), [])) else np.nan for h in r.index])
            if norm:
                lo, hi = np.nanmin(col) if np.isfinite(col).any() else np.nan, np.nanmax(col) if np.isfinite(col).any() else np.nan
                if not hi > lo:
                    continue
                col = (col - lo) / (hi - lo)
                need(abs(np.nanmin(r[m]) - 0) < 1e-12 and abs(np.nanmax(r[m]) - 1) < 1e-12, 'normalised course of month %s does not span 0..1', m)
            need(close(r[m].values, col, 1e-9), 'mean course of month %s', m)
    return True


@scenario('C19')
def humidity_table(k, rng):
    n = int(rng.choice([30, 200, 2500]))
    df = hourly_frame(k, rng, n=n)
    if k % 2:
        df['precip'] = np.where(np.isin(df.index.dayofyear % 3, [0]), df.precip, 0.0)
    note(hourly=df)
    r = call(melodist.calculate_month_hour_precip_mean, df)
    day = df.index.normalize()
    wetday = {d: df.precip[day == d].sum() > 0 for d in set(day)}
    acc = {}
    for t, d, h in zip(df.index, day, df.hum.values):
        acc.setdefault((t.month, t.hour, bool(wetday[d])), []).append(h)
    need(len(r) == len(acc), 'classes of the humidity table')
    for key, v in acc.items():
        v = np.array(v)
        v = v[~np.isnan(v)]
        e = v.mean() if len(v) else np.nan
        g = float(r.loc[key])
        need((np.isnan(e) and np.isnan(g)) or abs(g - e) < 1e-9 * (1 + abs(e)), 'humidity mean of class %s', key)
    return True


# ------------------------------------------------------------------ C21
@scenario('C21')
def station_history(k, rng):
    s = melodist.Station()
    cur = dict(lon=None, lat=None, timezone=None, data=None)
    ops = []
    hist = []
    for step in range(int(rng.integers(4, 12))):
        op = ['data', 'lon', 'lat', 'timezone', 'statistics', 'disagg', 'mutate', 'all'][int(rng.integers(0, 8))]
        if step < 4 and k % 3 == 0:
            op = list(rng.permutation(['lon', 'lat', 'timezone', 'data']))[step] if k % 2 else ['lon', 'lat', 'timezone', 'data'][step]
        ops.append(op)
        note(ops=list(ops))
        if op == 'all':
            for o, v in (('lon', float(rng.uniform(-20, 20))), ('lat', float(rng.uniform(-60, 60))), ('timezone', int(rng.integers(-2, 3)))):
                call(setattr, s, o, v)
                cur[o] = v
        elif op == 'data':
            idx = days(k + step, rng, nmin=3, nmax=12)
            n = len(idx)
            tmin, tmax, tmean = tmin_tmax(k, rng, n)
            df = pd.DataFrame(
                {'tmin': tmin, 'tmax': tmax, 'temp': tmean, 'precip': precip(k, rng, n), 'hum': rng.uniform(0, 100, n), 'wind': rng.uniform(0, 9, n), 'glob': rng.uniform(0, 300, n)},
                index=idx,
            )
            call(setattr, s, 'data_daily', df)
            cur['data'] = df.copy()
            df.iloc[:, :] = -5.0  # changes of the caller's object must not reach the station
        elif op in ('lon', 'lat', 'timezone'):
            v = {'lon': float(rng.uniform(-180, 180)), 'lat': float(rng.uniform(-60, 60)), 'timezone': int(rng.integers(-3, 4))}[op]
            call(setattr, s, op, v)
            cur[op] = v
        elif op == 'statistics':
            new = melodist.StationStatistics(lon=1.0, lat=2.0, timezone=3)
            call(setattr, s, 'statistics', new)
            need(s.statistics is new, 'statistics object not kept')
        elif op == 'disagg' and cur['data'] is not None and None not in (cur['lon'], cur['lat'], cur['timezone']):
            before = s.data_disagg.copy()
            var = ['temp', 'precip', 'wind', 'glob', 'hum'][int(rng.integers(0, 5))]
            if var == 'temp':
                call(s.disaggregate_temperature)
            elif var == 'precip':
                call(s.disaggregate_precipitation)
            elif var == 'wind':
                call(s.disaggregate_wind)
            elif var == 'glob':
                call(s.disaggregate_radiation)
            else:
                call(s.disaggregate_humidity)
            after = s.data_disagg
            need(list(before.columns) == list(after.columns), 'columns of the result table changed')
            for c in before:
                if c != var:
                    need(before[c].equals(after[c]), 'disaggregation of %s changed %s', var, c)
            need(after[var].notna().any(), 'no result for %s', var)
            hist.append(var)
        # invariants
        need((s.lon, s.lat, s.timezone) == (cur['lon'], cur['lat'], cur['timezone']), 'location attributes')
        st = s.statistics
        need((st._lon, st._lat, st._timezone) == (s.lon, s.lat, s.timezone), 'statistics of another location')
        if cur['data'] is not None:
            d = cur['data']
            full = d.reindex(pd.date_range(d.index[0], d.index[-1], freq='D'))
            need(s.data_daily.index.equals(full.index) and close(s.data_daily.values, full.values), 'daily data changed')
            check_axis(s.data_disagg.index, full_hours(full.index), 'result table')
            need(list(s.data_disagg.columns) == ['temp', 'precip', 'glob', 'hum', 'wind'], 'columns of the result table')
            if None not in (s.lon, s.lat, s.timezone):
                e = melodist.util.get_sun_times(full.index, s.lon, s.lat, s.timezone)
                need(s.sun_times is not None and s.sun_times.index.equals(e.index), 'sun times of other days')
                need(close(s.sun_times.values.astype(float), e.values.astype(float), 1e-9), 'sun times of another location')
    return len(set(ops)) > 2


# ------------------------------------------------------------------ C22
def snap(x):
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return ('pd', x.copy(deep=True), list(x.columns) if isinstance(x, pd.DataFrame) else x.name, x.index.name)
    if isinstance(x, np.ndarray):
        return ('np', x.copy())
    if isinstance(x, melodist.cascade.CascadeStatistics):
        return ('c', {k: snap(v) for k, v in x.__dict__.items()})
    if isinstance(x, (list, tuple)):
        return ('l', [snap(v) for v in x])
    if isinstance(x, dict):
        return ('d', {k: snap(v) for k, v in x.items()})
    return ('o', x)


def same(a, b):
    if a[0] != b[0]:
        return False
    if a[0] == 'pd':
        return a[2] == b[2] and a[1].equals(b[1]) and a[1].index.equals(b[1].index)
    if a[0] == 'np':
        return a[1].shape == b[1].shape and np.array_equal(a[1], b[1], equal_nan=a[1].dtype.kind == 'f')
    if a[0] in ('c', 'd'):
        return a[1].keys() == b[1].keys() and all(same(a[1][q], b[1][q]) for q in a[1])
    if a[0] == 'l':
        return len(a[1]) == len(b[1]) and all(same(p, q) for p, q in zip(a[1], b[1]))
    return a[1] is b[1] or a[1] == b[1] or a[1] != a[1]


def frame(f, *args, **kwargs):
    det = kwargs.pop('_det', True)
    s0 = snap([list(args), kwargs])
    np.random.seed(1)
    r1 = call(f, *args, **kwargs)
    s1 = snap([list(args), kwargs])
    need(same(s0, s1), '%s modified its input', f.__name__)
    np.random.seed(1)
    r2 = call(f, *args, **kwargs)
    if det:
        need(same(snap(r1), snap(r2)), '%s is not repeatable', f.__name__)
    return r1


@scenario('C22')
def frames(k, rng):
    m = melodist
    idx = days(k, rng, nmin=3, nmax=12, gaps=k % 2 == 1)
    n = len(idx)
    tmin, tmax, tmean = tmin_tmax(k, rng, n)
    p = 0.15 if k % 3 else 0.0
    df = pd.DataFrame(
        {
            'tmin': holes(k, rng, tmin, p), 'tmax': holes(k, rng, tmax, p), 'temp': holes(k, rng, tmean, p), 'precip': holes(k, rng, precip(k, rng, n), p),
            'hum': holes(k, rng, rng.uniform(30, 90, n), p), 'hum_min': rng.uniform(10, 30, n), 'hum_max': rng.uniform(60, 99, n),
            'wind': holes(k, rng, rng.uniform(0, 9, n), p), 'glob': holes(k, rng, rng.uniform(0, 300, n), p), 'ssd': rng.uniform(0, 8, n),
        },
        index=idx,
    )
    note(daily=df)
    hi = full_hours(idx)
    temp = pd.Series(holes(k, rng, rng.uniform(260, 300, 24 * n), p), index=hi)
    st = m.util.get_sun_times(idx, 10.0, [50.0, 75.0][k % 2], 1)
    pot = m.potential_radiation(hi, 10.0, 50.0, 1)
    mc = course(k, rng)
    mi = pd.MultiIndex.from_product([range(1, 13), range(24), [False, True]])
    mhpm = pd.Series(rng.uniform(20, 90, len(mi)), index=mi)
    delta = pd.Series(rng.uniform(0, 3, 12), index=np.arange(12) + 1)
    mon = pd.Series(rng.uniform(0.2, 0.5, 12), index=np.arange(12) + 1)
    cs = cascade_stats(k, rng, 5, lst=k % 2 == 0)
    which = k % 8
    if which == 0:
        frame(m.disagg_prec, df, method='equal')
        frame(m.disagg_prec, df.precip, method='cascade', cascade_options=cs)
        frame(m.disagg_prec_cascade, df.precip, cs, test=True)
        frame(m.disagg_prec, df.precip, method='masterstation', hourly_data_obs=pd.Series(rng.random(24 * n), index=hi))
    elif which == 1:
        for meth in ('sine_min_max', 'sine_mean', 'sine', 'mean_course_min_max', 'mean_course_mean'):
            for t in ('fix', 'sun_loc', 'sun_loc_shift'):
                if meth.startswith('mean') and t != 'fix':
                    continue
                frame(m.disaggregate_temperature, df, method=meth, min_max_time=t, mod_nighttime=bool(rng.integers(0, 2)), max_delta=delta, mean_course=mc, sun_times=st)
    elif which == 2:
        for meth in HMETHODS:
            for pm in (False, True):
                frame(m.disaggregate_humidity, df, method=meth, temp=temp, a0=1.0, a1=0.99, kr=12, month_hour_precip_mean=mhpm, preserve_daily_mean=pm)
        frame(m.util.vapor_pressure, temp, temp * 0 + 50)
        frame(m.util.vapor_pressure, temp.values, temp.values * 0 + 50)
        frame(m.util.dewpoint_temperature, temp, temp * 0 + 50)
    elif which == 3:
        frame(m.disaggregate_radiation, df, sun_times=st, pot_rad=pot, method='pot_rad')
        frame(m.disaggregate_radiation, df, sun_times=st, pot_rad=pot, method='pot_rad_via_ssd', angstr_a=mon, angstr_b=mon)
        frame(m.disaggregate_radiation, df, sun_times=st, pot_rad=pot, method='pot_rad_via_bc', bristcamp_a=mon, bristcamp_c=mon)
        frame(m.disaggregate_radiation, df, sun_times=st, method='mean_course', mean_course=mc * 300)
        frame(m.potential_radiation, hi, 10.0, 50.0, 1)
        frame(m.angstroem, df.ssd, st.daylength, df.glob, mon, mon)
        frame(m.bristow_campbell, df.tmin, df.tmax, df.glob, mon, mon)
    elif which == 4:
        for meth in ('equal', 'cosine', 'random'):
            frame(m.disaggregate_wind, df.wind, method=meth, a=0.2, b=1.0, t_shift=3.0)
        frame(m.distribute_equally, df.wind)
        frame(m.distribute_equally, df.precip, divide=True)
    elif which == 5:
        h = hourly_frame(k, rng, n=400)
        h = h.assign(precip=np.where(rng.random(len(h)) < 0.1, np.nan, rng.gamma(1, 1, len(h))))
        frame(m.build_casc, h, months=[np.arange(12) + 1], avg_stats=bool(k % 16 < 8))
        frame(m.aggregate_precipitation, h.fillna(0.0))
        frame(m.seasonal_subset, h, months=[int(h.index[0].month)])
    elif which == 6:
        h = hourly_frame(k, rng, n=500)
        h.index.name = 'time'
        frame(m.util.daily_from_hourly, h)
        frame(m.util.calculate_mean_daily_course_by_month, h.temp, normalize=True)
        frame(m.util.detect_gaps, h, 3600)
        frame(m.util.drop_incomplete_days, h)
        frame(m.calculate_month_hour_precip_mean, h)
        frame(m.get_shift_by_data, h.temp.fillna(280.0), 10.0, 50.0, 1)
    else:
        if df.index.freq is not None:
            frame(m.util.prepare_interpolation_data, df, {'tmin': 6, 'tmax': 15})
        h = hourly_frame(0, rng, n=600)
        frame(m.calculate_dewpoint_regression, h)
        frame(m.fit_cosine_function, h.wind)
        frame(m.util.get_sun_times, idx, 10.0, 50.0, 1)
    return True


# ------------------------------------------------------------------ C23 / C24
@scenario('C23', 3)
def gaps(k, rng):
    n = int(rng.choice([0, 1, 2, 3, 20, 200]))
    step = int(rng.choice([60, 300, 3600, 86400]))
    mult = np.where(rng.random(max(n - 1, 0)) < [0.0, 0.1, 0.7, 1.0][k % 4], rng.choice([2, 3, 24, 24 * 31], max(n - 1, 0)), 1)
    if k % 5 == 0 and n > 2:
        sec = rng.integers(1, 3, n - 1) * step // 2
    else:
        sec = mult * step
    t = pd.Timestamp(STARTS[k % len(STARTS)]) + pd.to_timedelta(np.concatenate([[0], np.cumsum(sec)])[:n], unit='s')
    df = pd.DataFrame({'x': np.arange(n, dtype=float)}, index=pd.DatetimeIndex(t))
    exp = int((sec != step).sum())
    note(index=df.index, timestep=step, expected=exp)
    for kw in ({}, {'verbose': False}, {'print_all': True}, {'print_max': 1}, {'print_max': 0}, {'print_max': 2, 'verbose': True}):
        r = call(melodist.util.detect_gaps, df, step, **kw)
        need(r == exp, '%s gaps reported instead of %s (%s)', r, exp, kw)
    return exp > 0


@scenario('C24', 3)
def truncate(k, rng):
    n = int(rng.choice([0, 1, 5, 23, 24, 25, 60, 200]))
    idx = pd.date_range(pd.Timestamp(STARTS[k % len(STARTS)]) + pd.Timedelta(hours=int(rng.integers(0, 24))), periods=n, freq='h')
    if k % 4 == 3:
        idx = idx[rng.random(n) < 0.5]
    shift = int(rng.choice([0, 0, 1, 7, 8, 23, 24, -1, 100]))
    df = pd.DataFrame({'x': rng.normal(0, 1, len(idx)), 'y': np.arange(len(idx), dtype=float)}, index=idx)
    note(index=idx, shift=shift)
    r = call(melodist.util.drop_incomplete_days, df, shift=shift)
    first = shift if 0 <= shift <= 23 else 0
    last = (first - 1) % 24
    a = np.flatnonzero(idx.hour == first)
    b = np.flatnonzero(idx.hour == last)
    exp = df.iloc[a[0]:b[-1] + 1] if len(a) and len(b) and b[-1] >= a[0] else df.iloc[:0]
    need(len(r) == len(exp), '%d rows kept instead of %d', len(r), len(exp))
    need((r.index == exp.index).all() and close(r.values, exp.values, 0), 'kept rows differ')
    return len(exp) > 0


# ------------------------------------------------------------------ C27
@scenario('C27')
def rejection(k, rng):
    m = melodist
    idx = pd.date_range('2000-01-01', periods=4, freq='D')
    df = pd.DataFrame({c: [280.0, 281, 282, 283] for c in ('tmin', 'tmax', 'temp')}, index=idx)
    for c in ('precip', 'wind', 'hum', 'glob', 'hum_min', 'hum_max', 'ssd'):
        df[c] = [1.0, 2.0, 0.0, 3.0]
    names = ['', 'Equal', 'equal ', 'sine_minmax', 'mean', 'x', 'cos', 'pot', 'min', 'masterstation2', 'none', 'sine_', 'cascade_', 'pot_rad_', 'linear']
    bad = names[k % len(names)] if k < 2 * len(names) else ''.join(rng.choice(list('abc_quelsin'), int(rng.integers(0, 9))))
    known = {'equal', 'cascade', 'masterstation', 'sine', 'sine_min_max', 'sine_mean', 'cosine', 'random', 'minimal', 'min_max', 'pot_rad', 'mean_course'}
    if bad in known:
        return None
    note(method=bad)
    hi = full_hours(idx)
    temp = pd.Series(280.0, index=hi)
    st = m.util.get_sun_times(idx, 10.0, 50.0, 1)
    pot = m.potential_radiation(hi, 10.0, 50.0, 1)
    c = m.cascade.CascadeStatistics()
    c.fill_with_sample_data()
    mc = course(k, rng)
    cases = [
        (m.disagg_prec, (df,), dict(method=bad, cascade_options=c, hourly_data_obs=pd.Series(1.0, index=hi))),
        (m.disaggregate_temperature, (df,), dict(method=bad, sun_times=st, mean_course=mc)),
        (m.disaggregate_humidity, (df,), dict(method=bad, temp=temp, a0=0.0, a1=1.0, kr=12)),
        (m.disaggregate_wind, (df.wind,), dict(method=bad, a=0.1, b=1.0, t_shift=1.0)),
        (m.disaggregate_radiation, (df,), dict(method=bad, sun_times=st, pot_rad=pot, mean_course=mc)),
        (m.disagg_prec_cascade, (df.precip[:1], c), {}),
        (m.disagg_prec_cascade, (df.precip[:0], c), {}),
        (m.disagg_prec_cascade, (df.precip, [c] * [4, 6, 0, 1, 9][k % 5]), {}),
        (m.disagg_prec_cascade, (df.precip, [c] * [8, 10, 5][k % 3]), dict(hourly=False, level=9)),
        (m.disagg_prec_cascade, (df.precip, [None, 'x', 3, {}, (c,) * 5][k % 5]), {}),
        (m.disagg_prec, (df.precip,), dict(method='cascade')),
        (m.disaggregate_humidity, (df,), dict(method='linear_dewpoint_variation', temp=temp, a0=0.0, a1=1.0, kr=[0, 24, 5, 7, 11, 13, 6.5][k % 7])),
        (m.disaggregate_humidity, (df,), dict(method='linear_dewpoint_variation', temp=temp, a0=0.0, a1=1.0)),
        (m.disaggregate_humidity, (df,), dict(method='dewpoint_regression', temp=temp, a0=0.0)),
        (m.disaggregate_humidity, (df,), dict(method='dewpoint_regression', temp=temp, a1=1.0)),
        (m.disaggregate_humidity, (df,), dict(method='month_hour_precip_mean')),
        (m.disaggregate_humidity, (df.drop(columns='hum_min'),), dict(method='min_max', temp=temp)),
        (m.disaggregate_humidity, (df.drop(columns='hum_max'),), dict(method='min_max', temp=temp)),
        (m.disaggregate_wind, (df.wind,), dict(method='cosine', a=0.1, b=1.0)),
        (m.disaggregate_wind, (df.wind,), dict(method='cosine', a=0.1, t_shift=1.0)),
        (m.disaggregate_wind, (df.wind,), dict(method='cosine', b=0.1, t_shift=1.0)),
        (m.disaggregate_radiation, (df,), dict(method='mean_course', sun_times=st)),
        (m.disaggregate_radiation, (df,), dict(method='pot_rad', sun_times=st)),
    ]
    for f, a, kw in cases:
        need(raises(f, *a, **kw), '%s accepted an invalid call %s', f.__name__, {q: v for q, v in kw.items() if isinstance(v, (str, int, float))})
    s = m.Station(lon=10.0, lat=50.0, timezone=1, data_daily=df)
    d0, r0, t0 = s.data_daily, s.data_disagg, s.sun_times
    for f in ('precipitation', 'temperature', 'humidity', 'wind', 'radiation'):
        before = s.data_disagg.copy()
        need(raises(getattr(s, 'disaggregate_' + f), method=bad), 'station accepted method %r for %s', bad, f)
        need(before.equals(s.data_disagg), 'rejected call changed the results')
    col = str(rng.choice(['tmin', 'tmax', 'tmean']))
    celsius = df.assign(**{col: [280.0, 290.0, 281.0, 280.0]})
    celsius.loc[idx[int(rng.integers(0, 4))], col] = float(rng.choice([-5.0, 0.0, 25.0, 199.9]))
    hourly = df.reindex(hi).ffill()
    for what, x in (
        ('hourly data', hourly), ('unsorted data', df.iloc[[0, 2, 1, 3]]), ('degrees Celsius', celsius),
        ('no time axis', df.reset_index(drop=True)), ('a series', df.precip), ('an array', df.values),
    ):
        need(raises(setattr, s, 'data_daily', x), 'station accepted %s', what)
        need(s.data_daily is d0 and s.data_disagg is r0 and s.sun_times is t0, 'rejected daily data changed the station')
    need(raises(setattr, s, 'statistics', {}), 'station accepted an invalid statistics object')
    return True


# ------------------------------------------------------------------ C28
@scenario('C28', 2)
def interpolation(k, rng):
    n = int(rng.choice([1, 2, 3, 10, 40]))
    idx = pd.date_range(STARTS[k % len(STARTS)], periods=n, freq='D')
    nc = int(rng.choice([1, 2, 3, 24])) if k else 3
    hours = rng.permutation(24)[:nc]
    cols = ['T%d' % h for h in hours]
    df = pd.DataFrame({c: holes(k, rng, rng.uniform(250, 300, n), 0.2 if k % 3 else 0.0) for c in cols}, index=idx)
    ch = {c: int(h) for c, h in zip(cols, hours)}
    note(daily=df, hours=ch)
    r = call(melodist.util.prepare_interpolation_data, df, ch)
    check_axis(r.index, full_hours(idx), 'interpolation data')
    m = by_day(r, idx)
    e = np.full((n, 24), np.nan)
    for c, h in ch.items():
        e[:, h] = df[c].values
    need(close(m, e, 0), 'readings misplaced')
    if n > 1 and np.isfinite(e).sum() > 1:
        s = station(df)
        for meth in ('linear', 'nearest'):
            if meth == 'nearest' and np.isfinite(e).sum() < 2:
                continue
            q = by_day(call(s.interpolate, ch, method=meth), idx)
            need(close(q[np.isfinite(e)], e[np.isfinite(e)], 1e-9), 'interpolation changed a reading')
            v = q[np.isfinite(q)]
            need(v.min() >= np.nanmin(e) - 1e-9 and v.max() <= np.nanmax(e) + 1e-9, 'interpolated values outside the readings')
    return np.isfinite(e).any()
