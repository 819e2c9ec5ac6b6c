"""Aggregating hourly data to daily values follows each variable's meaning."""
import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import digest

ID = 'C18'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded hourly records with partial days, missing hours, missing days and varying columns per case; every daily value is compared '
        'with the statistics of the hours of that calendar day; distinct by record')
COLS = ('temp', 'precip', 'glob', 'hum', 'wind', 'ssd')
REQUIRED = list(COLS) + ['partial first day', 'partial last day', 'day without value', 'absent day', 'missing hours', 'subset', 'other columns',
                         'leap day', 'empty sum', 'all missing', 'out of range']


def expected(hours):
    """hours: known values of one day (all statistics)."""
    if len(hours) == 0:
        return dict(mean=np.nan, min=np.nan, max=np.nan, sum=0.0)
    return dict(mean=sum(hours) / len(hours), min=min(hours), max=max(hours), sum=float(sum(hours)))


WHAT = dict(temp=[('temp', 'temp', 'mean', 1), ('tmin', 'temp', 'min', 1), ('tmax', 'temp', 'max', 1)],
            precip=[('precip', 'precip', 'sum', 1)], glob=[('glob', 'glob', 'mean', 1)],
            hum=[('hum', 'hum', 'mean', 1), ('hum_min', 'hum', 'min', 1), ('hum_max', 'hum', 'max', 1)],
            wind=[('wind', 'wind', 'mean', 1)], ssd=[('ssd', 'ssd', 'sum', 1 / 60.0)])


def oracle(ev, m):
    df = ev.args['df']
    r = ev.result
    have = [c for c in COLS if c in df.columns]
    want_cols = [w for c in have for w in WHAT[c]]
    m.check(sorted(r.columns) == sorted(w[0] for w in want_cols), 'columns %r for input %r' % (list(r.columns), list(df.columns)))
    days = ref.day_list(r.index)
    m.check((ref.ts_us(r.index) % ref.DAY_US == 0).all(), 'daily time stamps')
    rows = {}
    for i, d in enumerate(ref.day_list(df.index)):
        rows.setdefault(d, []).append(i)
    m.check(all(a < b for a, b in zip(days, days[1:])), 'order of the days')
    m.check(set(rows) <= set(days), 'days are missing in the result')
    m.check(not days or (min(rows) == days[0] and max(rows) == days[-1]), 'additional days in the result', days=days[:3] + days[-3:])
    for name, src, how, factor in want_cols:
        v = norm.values(df[src])
        exp = []
        for d in days:
            h = [float(x) for x in v[rows.get(d, [])] if x == x]
            exp.append(expected(h)[how] * factor)
        m.close(norm.values(r[name]), np.array(exp), 'daily %s' % name, rtol=1e-9, atol=1e-9, index=[str(d) for d in days])
        if how == 'sum' and 0.0 in exp and np.isnan(v).any():
            m.tag('empty sum')
        if how == 'mean' and np.isnan(exp).any():
            m.tag('day without value')
        if np.isnan(v).any():
            m.tag('missing hours')
        if np.isnan(v).all():
            m.tag('all missing')
        m.tag(src)
    if len(have) < len(COLS):
        m.tag('subset')
    if len(have) < len(df.columns):
        m.tag('other columns')
    if df.index[0].hour:
        m.tag('partial first day')
    if df.index[-1].hour != 23:
        m.tag('partial last day')
    if len(rows) < len(days):
        m.tag('absent day')
    if any((d.month, d.day) == (2, 29) for d in rows):
        m.tag('leap day')
    m.judged(digest(df), n=len(days) * len(want_cols), sample=common.describe(first=df.index[0], rows=len(df), columns=list(df.columns)))


ORACLES = {'daily_from_hourly': oracle}


def case(g, m):
    import melodist
    df = g.hourly(g.days(hi=30))
    df['ssd'] = g.r.uniform(0, 60, len(df))
    if g.chance(0.3):  # readings of real instruments
        df['hum'] = df.hum * g.pick([1.02, 1.06])
        df['glob'] = df.glob - g.pick([0.3, 4.0])
        df['ssd'] = df.ssd * g.pick([1.0, 1.1])
        df['precip'] = df.precip * g.pick([1.0, 40.0])
        df['wind'] = df.wind * g.pick([1.0, 15.0])
        m.tag('out of range')
    x = g.u()
    if x < 0.5:
        a, b = g.i(0, 23), g.i(1, 23)
        if a + b < len(df):
            df = df.iloc[a:len(df) - b]
    if g.chance(0.3) and len(df) > 60:
        k = g.i(1, len(df) - 50)
        df = df.drop(index=df.index[k:k + g.pick([1, 5, 24, 48])])
    if g.chance(0.1):
        df = df.loc[g.r.random_sample(len(df)) < 0.5] if len(df) > 30 else df
    cols = list(df.columns)
    if g.chance(0.4):
        cols = [c for c in cols if g.chance(0.6)] or [g.pick(cols)]
    df = df[list(g.r.permutation(cols))].copy()
    if g.chance(0.3):
        df['other'] = 1.0
    if g.chance(0.05):
        df[cols[0]] = np.nan
    if g.chance(0.15):
        df.index.name = 'time'
    if g.chance(0.1):
        df = df.fillna(0).round().astype(int)
    melodist.util.daily_from_hourly(df)
