"""C01-C06, C29: precipitation and time axes"""
from .base import *  # noqa: F401,F403


def _case(k, rng, nmin=1, nmax=40, gaps=True):
    idx = days(k, rng, nmin=nmin, nmax=nmax, gaps=gaps)
    s = pd.Series(holes(k, rng, precip(k, rng, len(idx))), index=idx)
    note(daily=s)
    return s


# ------------------------------------------------------------------ C01
def _check_equal(res, s):
    check_axis(res.index, full_hours(s.index), 'equal distribution')
    m = by_day(res, s.index)
    need(close(m, np.repeat(s.values[:, None] / 24, 24, axis=1), 1e-12), 'an hourly value is not 1/24 of its daily total')


@scenario('C01', 3)
def equal_function(k, rng):
    s = _case(k, rng, nmax=1200)
    df = pd.DataFrame({'precip': s})
    if k % 5 == 4:
        df['temp'] = 1.0
    _check_equal(call(melodist.disagg_prec, df, method='equal'), s)
    return len(s) > 1 and s.notna().any()


@scenario('C01')
def equal_helper(k, rng):
    s = _case(k, rng)
    _check_equal(call(melodist.distribute_equally, s, divide=True), s)
    r = call(melodist.distribute_equally, s)
    check_axis(r.index, full_hours(s.index), 'replication')
    need(close(by_day(r, s.index), np.repeat(s.values[:, None], 24, axis=1)), 'an hourly value differs from its daily value')
    return len(s) > 1


@scenario('C01')
def equal_station(k, rng):
    s = _case(k, rng, nmin=2)
    st = station(pd.DataFrame({'precip': s}))
    call(st.disaggregate_precipitation, 'equal')
    full = s.reindex(pd.date_range(s.index[0], s.index[-1], freq='D'))
    _check_equal(st.data_disagg.precip, full)
    return True


# ------------------------------------------------------------------ C02 / C03
def _check_cascade(res, s, steps, what):
    step = pd.Timedelta(days=1) / steps
    exp = pd.DatetimeIndex(np.concatenate([pd.date_range(d, periods=steps, freq=step).values for d in s.index]))
    check_axis(res.index, exp, what)
    m = by_day(res, s.index, steps)
    miss = s.isna().values
    need(np.isnan(m[miss]).all(), '%s: a day without observation has values', what)
    w = m[~miss]
    need(not np.isnan(w).any(), '%s: missing value on a day with observation', what)
    need((w >= 0).all(), '%s: negative precipitation %s', what, w.min() if w.size else None)
    tot = s.values[~miss]
    scale = np.nansum(s.values)
    bad = np.abs(w.sum(axis=1) - tot) > 1e-9 * (1 + tot) + 1e-12 * scale
    need(not bad.any(), '%s: daily total not conserved (%s instead of %s)', what, w.sum(axis=1)[bad][:1], tot[bad][:1])


@scenario('C02', 2)
def cascade_hourly(k, rng):
    s = _case(k, rng, nmin=2, nmax=70)
    stats = cascade_stats(k, rng, 5, lst=k % 3 == 2)
    mode = int(rng.integers(0, 5))
    note(draw_mode=mode, stats=[getattr(c, '__dict__', None) for c in (stats if isinstance(stats, list) else [stats])])
    with draws(rng, mode):
        if k % 2:
            r = call(melodist.disagg_prec, s, method='cascade', cascade_options=stats)
        else:
            r = call(melodist.disagg_prec_cascade, s, stats)
    _check_cascade(r, s, 24, 'hourly cascade')
    return s.sum() > 0


@scenario('C02', 0.25)
def cascade_station(k, rng):
    s = _case(k, rng, nmin=2, gaps=False)
    st = station(pd.DataFrame({'precip': s}))
    st.statistics.precip.months = [np.arange(12) + 1]
    st.statistics.precip.stats = [cascade_stats(k, rng, 5, lst=k % 2 == 1)]
    with draws(rng, k % 5):
        call(st.disaggregate_precipitation, 'cascade')
    _check_cascade(st.data_disagg.precip, s, 24, 'station cascade')
    return s.sum() > 0


@scenario('C03')
def cascade_5min(k, rng):
    s = _case(k, rng, nmin=2, nmax=6, gaps=False)[:6]
    level = 9 + k % 3
    stats = cascade_stats(k, rng, level, lst=(k // 3) % 2 == 1)
    mode = int(rng.integers(0, 5))
    note(level=level, draw_mode=mode)
    with draws(rng, mode):
        r = call(melodist.disagg_prec_cascade, s, stats, hourly=False, level=level)
    _check_cascade(r, s, 288, '5-minute cascade, level %d' % level)
    return s.sum() > 0


# ------------------------------------------------------------------ C04
def _valid_tables(c, what):
    for n in ('p01', 'p10', 'pxx', 'wxx'):
        v = getattr(c, n)
        need(not np.isnan(v).any(), '%s: %s has undefined entries', what, n)
        need((v >= -1e-6).all() and (v <= 1 + 1e-6).all(), '%s: %s outside 0..1', what, n)
    need(np.abs(c.p01 + c.p10 + c.pxx - 1).max() <= 1e-6, '%s: branching probabilities do not sum to 1', what)
    need(np.abs(c.wxx.sum(axis=0) - 1).max() <= 1e-6, '%s: weight probabilities do not sum to 1', what)


@scenario('C04')
def statistics_tables(k, rng):
    n = int(rng.choice([96, 97, 131, 240, 777, 2000, 9000], p=[0.15, 0.15, 0.15, 0.15, 0.2, 0.15, 0.05]))
    idx = pd.date_range(STARTS[k % len(STARTS)], periods=n, freq='h')
    wet = rng.uniform(0.03, 0.9)
    v = np.where(rng.random(n) < wet, np.round(rng.gamma(0.7, 2, n), int(rng.integers(1, 4))), 0.0)
    if k % 4 == 3:  # persistent rain
        v = np.where(np.repeat(rng.random(n // 6 + 1), 6)[:n] < wet, rng.gamma(0.7, 2, n), 0.0)
    v[int(rng.integers(0, 40))] += 0.3
    v[40:44] += 1.0
    miss = rng.random(n) < (0.2 if k % 3 == 0 else 0.0)
    obs = pd.DataFrame({'precip': np.where(miss, np.nan, v)}, index=idx)
    obs.loc[idx[41], 'precip'] = 1.5
    months = [np.arange(12) + 1]
    if k % 5 == 4 and len(set(idx.month)) > 1:
        mm = sorted(set(idx.month))
        months = [[m] for m in mm if (idx.month == m).sum() > 100]
        for mo in months:
            pos = np.flatnonzero(idx.month == mo[0])[5:9]
            obs.iloc[pos, 0] = 1.0
    avg = bool(k % 2)
    perc = float(rng.choice([50, 1, 99, 75]))
    note(obs=obs, avg=avg, percentile=perc, months=repr(months))
    before = obs.copy()
    r = call(melodist.build_casc, obs, months=months, avg_stats=avg, percentile=perc)
    need(len(r) == len(months), 'one statistics object per season expected')
    for c in r:
        if avg:
            _valid_tables(c, 'averaged')
            need(len(c.threshold) == 5, 'five thresholds expected')
        else:
            need(len(c) == 5, 'five levels expected')
            for i, ci in enumerate(c):
                _valid_tables(ci, 'level %d' % i)
    filled = before.fillna(0)
    r2 = call(melodist.build_casc, filled, months=months, avg_stats=avg, percentile=perc)
    for a, b in zip(r, r2):
        need(a == b, 'missing observations do not count as dry')
    return True


# ------------------------------------------------------------------ C05
@scenario('C05', 3)
def master(k, rng):
    s = _case(k, rng)
    hours = full_hours(s.index)
    if k % 4 == 0:  # the master record is longer than the daily series
        hours = full_hours(pd.date_range(s.index[0] - pd.Timedelta(days=2), s.index[-1] + pd.Timedelta(days=2), freq='D'))
    m = pd.Series(np.where(rng.random(len(hours)) < 0.6, 0.0, rng.gamma(0.6, 3, len(hours))), index=hours)
    dd = hours.normalize()
    for d in s.index:
        u = rng.random()
        if u < 0.2:
            m[dd == d] = 0.0
        elif u < 0.3:
            m[dd == d] = np.nan
        elif u < 0.45:
            m[(dd == d) & (rng.random(len(hours)) < 0.3)] = np.nan
        elif u < 0.55:
            m[dd == d] = 0.0
            m[d + pd.Timedelta(hours=int(rng.integers(0, 24)))] = float(rng.choice([1.0, 1e-3, 50.0]))
    zd = 'uniform' if k % 3 else 'zero'
    note(master=m, zerodiv=zd)
    if k % 2:
        r = call(melodist.precip_master_station, s, m, zd)
    else:
        r = call(melodist.disagg_prec, s, method='masterstation', hourly_data_obs=m, zerodiv=zd)
    check_axis(r.index, full_hours(s.index), 'master station')
    got = by_day(r, s.index)
    pat = by_day(m[full_hours(s.index)], s.index)
    for i, d in enumerate(s.index):
        tot, p = s.iloc[i], pat[i]
        ps = np.nansum(p)
        if ps > 0:
            exp = p / ps * tot
        elif zd == 'uniform':
            exp = np.full(24, tot / 24)
        else:
            exp = np.zeros(24)
        need(close(got[i], exp, 1e-9), 'master station: wrong values on %s', d)
        if not np.isnan(tot) and (ps > 0 or zd == 'uniform'):
            need(abs(np.nansum(got[i]) - tot) <= 1e-9 * (1 + tot), 'master station: total of %s not conserved', d)
    return s.sum() > 0


# ------------------------------------------------------------------ C06
@scenario('C06', 2)
def axes(k, rng):
    idx = days(k, rng, nmin=1, nmax=800)
    note(days=idx)
    alldays = pd.date_range(idx[0], idx[-1], freq='D')
    check_axis(call(melodist.util.hourly_index, idx), full_hours(idx), 'hourly axis')
    check_axis(call(melodist.util.hourly_index, idx, fill_gaps=True), full_hours(alldays), 'hourly axis, gaps filled')
    return len(idx) > 1


@scenario('C06')
def fine_axes(k, rng):
    idx = days(k, rng, nmin=1, nmax=20)[:12]
    if k % 3 == 1:  # exactly one day absent
        idx = pd.date_range(idx[0], periods=int(rng.integers(3, 9)), freq='D').delete(1)
    level = 1 + k % 11
    note(days=idx, level=level)
    for fill in (False, True):
        dd = pd.date_range(idx[0], idx[-1], freq='D') if fill else idx
        if len(dd) > 400:
            continue
        for f, n, kw in (
            (melodist.fmin_index, 288, {}),
            (melodist.sub_level_index, 2**level, {'level': level}),
        ):
            us = 86400 * 10**6 // n
            exp = pd.DatetimeIndex(
                np.repeat(dd.values.astype('datetime64[us]'), n) + np.tile(np.arange(n) * us, len(dd)).astype('timedelta64[us]')
            )
            check_axis(call(f, idx, fill_gaps=fill, **kw), exp, '%s %s' % (f.__name__, kw))
    return len(idx) > 1


# ------------------------------------------------------------------ C29
def _partition(k, rng):
    if k % 4 == 0:
        return [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
    m = rng.permutation(12) + 1
    cuts = sorted(rng.choice(np.arange(1, 12), int(rng.integers(1, 5)), replace=False))
    return [list(map(int, x)) if rng.random() < 0.5 else x for x in np.split(m, cuts)]


@scenario('C29', 2)
def subset(k, rng):
    n = int(rng.choice([1, 3, 40, 400, 1500]))
    freq = ['D', 'h', '5min'][int(rng.integers(0, 3))]
    idx = pd.date_range(pd.Timestamp(STARTS[k % len(STARTS)]) + pd.Timedelta(days=int(rng.integers(0, 700))), periods=n, freq=freq)
    if k % 3 == 2:
        idx = idx[rng.random(n) < 0.8]
    v = pd.Series(holes(k, rng, rng.normal(0, 5, len(idx)), 0.1), index=idx)
    months = _partition(k, rng)[0] if k % 7 else 'all'
    note(series=v, months=repr(months))
    data = v if k % 2 else pd.DataFrame({'precip': v, 'x': -v})
    r = call(melodist.seasonal_subset, data, months=months)
    sel = np.isin(idx.month, np.arange(12) + 1 if isinstance(months, str) else months)
    exp = data[sel]
    check_axis(r.index, exp.index, 'seasonal subset')
    need(close(np.asarray(r, dtype=float), np.asarray(exp, dtype=float)), 'seasonal subset: values changed')
    return sel.any() and not sel.all()


@scenario('C29', 2)
def seasonal_cascade(k, rng):
    n = int(rng.choice([3, 40, 100]))
    idx = pd.date_range(pd.Timestamp(STARTS[k % len(STARTS)]) + pd.Timedelta(days=int(rng.integers(0, 700))), periods=n, freq='D')
    s = pd.Series(holes(k, rng, precip(k, rng, n), 0.1), index=idx)
    months = _partition(k, rng)
    # statistics of each season: everything into the first/second half of the day etc.
    stats, sig = [], []
    for i, _ in enumerate(months):
        c = melodist.cascade.CascadeStatistics()
        c.p01[:] = i % 2
        c.p10[:] = 1 - i % 2
        c.wxx[:] = 1 / 7
        stats.append(c)
        sig.append(i % 2)
    st = station(pd.DataFrame({'precip': s}))
    st.statistics.precip.months = months
    st.statistics.precip.stats = stats
    note(daily=s, months=repr(months))
    with draws(rng, 0):
        call(st.disaggregate_precipitation, 'cascade')
    res = st.data_disagg.precip
    check_axis(res.index, full_hours(idx), 'seasonal cascade')
    m = by_day(res, idx)
    for i, d in enumerate(idx):
        j = [j for j, mm in enumerate(months) if d.month in list(mm)][0]
        cnt = np.isin(idx.month, months[j]).sum()
        if cnt < 2:
            continue
        if np.isnan(s.iloc[i]):
            need(np.isnan(m[i]).all(), 'missing day %s has values', d)
            continue
        need(abs(m[i].sum() - s.iloc[i]) <= 1e-9 * (1 + np.nansum(s)), 'total of %s not conserved', d)
        need((m[i] >= 0).all(), 'negative value on %s', d)
        if s.iloc[i] > 0:
            # p01 = 1: everything in the last box; p10 = 1: everything in the first box
            where = m[i, 23] if sig[j] else m[i, 0]
            need(where > 0.74 * s.iloc[i], 'day %s was not disaggregated with the statistics of its season', d)
    return s.sum() > 0
