"""Runtime contracts executed on the real code of the repository (runs under /opt/venv).

Every property has scenarios: a scenario builds an input from (k, rng), calls the real code and
evaluates the postcondition of the property on the result.  The pair (scenario, k) with the run's
seed determines the input completely, so a replay file only needs these.
"""
import copy
import json
import os
import sys
import traceback
import warnings

sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, REPO)

import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402

warnings.simplefilter('ignore')

import melodist  # noqa: E402
import melodist.util  # noqa: E402

assert os.path.realpath(melodist.__file__).startswith(os.path.realpath(REPO) + '/'), melodist.__file__

SCENARIOS = {}  # property -> list of (name, function, weight)


class Violation(Exception):
    pass


def scenario(prop, weight=1):
    def deco(f):
        SCENARIOS.setdefault(prop, []).append((f.__name__, f, weight))
        return f

    return deco


LAST_INPUT = {}


def note(**kw):
    """remember the input of the current case (written to the replay file)"""
    LAST_INPUT.update(kw)


def need(cond, msg, *args):
    if not bool(cond):
        raise Violation(msg % args if args else msg)


class quiet:
    """silence prints of the code under test"""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


def call(f, *args, **kwargs):
    """call the real code; an exception for a valid input violates the contract"""
    with quiet():
        try:
            return f(*args, **kwargs)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(
                'valid call of %s raised %s: %s (%s:%s)'
                % (getattr(f, '__name__', f), type(e).__name__, e, tb.filename, tb.lineno)
            )


def raises(f, *args, **kwargs):
    with quiet():
        try:
            f(*args, **kwargs)
        except Exception:
            return True
    return False


def close(a, b, tol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    na, nb = np.isnan(a), np.isnan(b)
    return a.shape == b.shape and (na == nb).all() and np.all(
        (np.abs(np.where(na, 0, a) - np.where(nb, 0, b)) <= tol * (1 + np.abs(np.where(nb, 0, b))))
    )


# --------------------------------------------------------------------------- input generators
STARTS = [
    '2000-02-27', '1999-12-30', '2004-02-28', '2001-02-27', '1996-01-30', '2003-10-30', '2010-12-31',
    '1980-06-28', '2008-02-29', '2023-03-25', '1970-01-01', '1968-12-30', '2000-01-01',
]


def days(k, rng, nmin=1, nmax=40, gaps=True):
    """increasing daily axis; k=0.. are corner cases"""
    n = int(rng.choice([nmin, nmin + 1, nmin + 2, 5, 9, 33, nmax], p=[0.12, 0.14, 0.14, 0.2, 0.2, 0.15, 0.05]))
    n = max(n, nmin)
    start = pd.Timestamp(STARTS[k % len(STARTS)] if k < 2 * len(STARTS) else '1960-01-01')
    if k >= 2 * len(STARTS):
        start += pd.Timedelta(days=int(rng.integers(0, 25000)))
    idx = pd.date_range(start, periods=n, freq='D')
    style = int(rng.integers(0, 6)) if gaps else 0
    if gaps and k % 3 == 1:
        style = 1 + k % 5
    if style == 1 and n > 2:  # random absent days
        keep = rng.random(n) < 0.6
        keep[0] = keep[-1] = True
        idx = idx[keep]
    elif style == 2:  # same day of different months
        idx = pd.DatetimeIndex([start + pd.DateOffset(months=i) for i in range(max(nmin, min(n, 6)))])
    elif style == 3 and n > 2:  # long gap
        i = n // 2
        idx = idx[:i].append(idx[i:] + pd.Timedelta(days=int(rng.integers(1, 400))))
    elif style == 4:  # the same days of consecutive years
        idx = pd.DatetimeIndex(
            sorted({start + pd.DateOffset(years=i) + pd.Timedelta(days=j) for i in range(3) for j in range(2)})
        )
    if len(idx) < nmin:
        idx = pd.date_range(start, periods=nmin, freq='D')
    return idx


def holes(k, rng, v, p=None):
    """sprinkle missing values"""
    v = np.array(v, dtype=float)
    if p is None:
        p = [0.0, 0.15, 0.5, 0.9, 1.0][int(rng.choice(5, p=[0.4, 0.3, 0.2, 0.08, 0.02]))]
    v[rng.random(v.shape) < p] = np.nan
    return v


def precip(k, rng, n):
    s = int(rng.integers(0, 5))
    v = np.where(rng.random(n) < 0.5, 0.0, np.round(rng.gamma(0.6, 8, n), 1))
    if s == 1:
        v = rng.gamma(0.6, 8, n)
    elif s == 2:
        v = np.zeros(n)
    elif s == 3:
        v = 10.0 ** rng.uniform(-6, 3, n)
    return v


def tmin_tmax(k, rng, n):
    tmin = rng.uniform(235, 300, n)
    tmax = tmin + rng.uniform(0.1, 25, n)
    if k % 4 == 0:
        tmin = 280 + 8 * np.sin(np.arange(n) / 3.0) + rng.normal(0, 2, n)
        tmax = tmin + rng.uniform(2, 15, n)
    tmean = tmin + (tmax - tmin) * rng.uniform(0.2, 0.8, n)
    return tmin, tmax, tmean


def full_hours(idx):
    """independent construction of the expected hourly axis"""
    return pd.DatetimeIndex(
        np.repeat(idx.values, 24) + np.tile(np.arange(24), len(idx)).astype('timedelta64[h]')
    )


def by_day(series, idx, k=24):
    """values of a sub-daily result as matrix (days x steps); checks the time axis"""
    return np.asarray(series, dtype=float).reshape(len(idx), k)


def check_axis(index, expected, what):
    need(len(index) == len(expected), '%s: %d time steps instead of %d', what, len(index), len(expected))
    need((pd.DatetimeIndex(index) == expected).all(), '%s: wrong time stamps', what)


def station(daily, lon=10.0, lat=50.0, tz=1, **kw):
    return call(melodist.Station, lon=lon, lat=lat, timezone=tz, data_daily=daily, **kw)


class draws:
    """replace the random draws of the code under test by chosen sequences"""

    def __init__(self, rng, mode):
        self.rng, self.mode = rng, mode

    def one(self):
        r, m = self.rng, self.mode
        if m == 0:
            return r.random()
        if m == 1:
            return float(r.choice([0.0, 1 - 2.0**-53, 0.5, 2.0**-53]))
        if m == 2:
            return 1 - 2.0**-53
        if m == 3:
            return 0.0
        return float(np.clip(round(r.random() * 7) / 7 + r.choice([0, 1e-12, -1e-12]), 0, 1 - 2.0**-53))

    def random(self, size=None):
        if size is None:
            return self.one()
        return np.array([self.one() for _ in range(int(np.prod(size)))]).reshape(size)

    def rand(self, *size):
        return self.random(size if size else None)

    def __enter__(self):
        self.saved = {n: getattr(np.random, n) for n in ('random', 'rand', 'random_sample', 'uniform')}
        np.random.seed(int(self.rng.integers(0, 2**31)))
        np.random.random = self.random
        np.random.random_sample = self.random
        np.random.rand = self.rand
        return self

    def __exit__(self, *a):
        for n, f in self.saved.items():
            setattr(np.random, n, f)


def cascade_stats(k, rng, levels=5, lst=False):
    def one(nthr):
        c = melodist.cascade.CascadeStatistics()
        mode = int(rng.integers(0, 5)) if k > 0 else 0
        if mode == 0:
            c.fill_with_sample_data()
        else:
            if mode == 4:  # degenerate tables
                p = np.eye(3)[rng.integers(0, 3, (2, 4))]
                w = np.eye(7)[rng.integers(0, 7, (2, 4))]
            else:
                p = rng.dirichlet([0.5] * 3, (2, 4))
                w = rng.dirichlet([0.5] * 7, (2, 4))
            if mode == 3:
                p = np.round(p, 2)
                p[..., 2] = 1 - p[..., 0] - p[..., 1]
                p = np.clip(p, 0, 1)
            c.p01, c.p10, c.pxx = (p[..., i].copy() for i in range(3))
            c.wxx = np.moveaxis(w, -1, 0).copy()
        c.threshold = rng.gamma(1, 4, nthr)
        c.percentile = float(rng.choice([50, 75, 33.3])) if k % 2 else 50
        return c

    return [one(1) for _ in range(levels)] if lst else one(levels)


# --------------------------------------------------------------------------- runner
def run_case(prop, name, k, seed):
    f = {n: g for n, g, _ in SCENARIOS[prop]}[name]
    rng = np.random.default_rng([seed, k, sum(map(ord, prop + name))])
    LAST_INPUT.clear()
    try:
        return f(k, rng), None
    except Violation as v:
        return None, str(v)
    except Exception as e:  # the postcondition could not even be evaluated on the result
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return None, 'result cannot be evaluated: %s: %s (%s:%s)' % (
            type(e).__name__, e, os.path.basename(tb.filename), tb.lineno,
        )


def jsonable(x):
    if isinstance(x, pd.DataFrame):
        return {'index': [str(t) for t in x.index[:60]], 'columns': {str(c): [repr(v) for v in x[c].iloc[:60]] for c in x}}
    if isinstance(x, pd.Series):
        return {'index': [str(t) for t in x.index[:60]], 'values': [repr(v) for v in x.iloc[:60]]}
    if isinstance(x, pd.Index):
        return [str(t) for t in x[:60]]
    if isinstance(x, np.ndarray):
        return [repr(v) for v in x.ravel()[:60]]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x[:60]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


def run_property(prop, seed, count, budget):
    """run `count` rounds over the scenarios within `budget` seconds; returns a report"""
    import time

    t0 = time.time()
    done = 0
    rep = dict(property=prop, seed=seed, evaluations=0, distinct_nontrivial=0, by_scenario={}, failures=[], samples=[])
    seen = set()
    k = 0
    while k < count and time.time() - t0 < budget:
        for name, f, weight in SCENARIOS[prop]:
            if weight < 1 and k % int(round(1 / weight)) != 0:
                continue
            for j in range(max(1, int(weight))):
                kk = k * max(1, int(weight)) + j
                tag, err = run_case(prop, name, kk, seed)
                rep['evaluations'] += 1
                rep['by_scenario'][name] = rep['by_scenario'].get(name, 0) + 1
                key = (name, repr(tag), json.dumps(jsonable(LAST_INPUT), sort_keys=True)[:2000])
                if err is None and tag is not None and key not in seen:
                    seen.add(key)
                    rep['distinct_nontrivial'] += 1
                if len(rep['samples']) < 3 and LAST_INPUT and k >= 1:
                    rep['samples'].append({'scenario': name, 'k': kk, 'input': trunc(jsonable(LAST_INPUT))})
                if err is not None:
                    rep['failures'].append(
                        dict(scenario=name, k=kk, seed=seed, message=err, input=jsonable(LAST_INPUT))
                    )
                    if len(rep['failures']) >= 1:
                        rep['wall_s'] = time.time() - t0
                        return rep
        k += 1
        done = k
    rep['rounds'] = done
    rep['wall_s'] = time.time() - t0
    return rep


def trunc(x, n=6):
    if isinstance(x, dict):
        return {k: trunc(v, n) for k, v in list(x.items())[:12]}
    if isinstance(x, list):
        return [trunc(v, n) for v in x[:n]]
    return x


def deep(x):
    return copy.deepcopy(x)
