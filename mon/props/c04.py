"""Seasonal cascade statistics apply to the days of their own months."""
import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import digest

ID = 'C04'
N = dict(quick=1500, thorough=15000)
RULE = ('one station with seeded daily precipitation, season definition and tables of sure outcomes per case, several shifts; the whole '
        'hourly series is compared; non-trivial if some wet day lies in a season; distinct by series, seasons, tables and shift')
REQUIRED = ['several seasons', 'uncovered month', 'single day season', 'shift forward', 'shift back', 'missing day', 'year wrap',
            'subset', 'realisation']


def expected(daily, months, stats, shift):
    d = norm.values(daily)
    n = len(d)
    mo = np.asarray(daily.index.month)
    out = np.full((n, 24), np.nan)
    for ms, st in zip(months, stats):
        sel = np.flatnonzero(np.isin(mo, [int(a) for a in ms]))
        if len(sel) < 2:
            continue
        boxes = ref.run_deterministic(d[sel], st, 5)[-1]
        h = ref.hourly_from_boxes(boxes, len(sel))
        h[np.isnan(d[sel])] = np.nan
        out[sel] = h
    f = out.ravel()
    r = np.full(f.shape, np.nan)
    if shift == 0:
        r = f
    elif abs(shift) < len(f):
        if shift > 0:
            r[shift:] = f[:-shift]
        else:
            r[:shift] = f[-shift:]
    return r


def sure(stats):
    for s in stats:
        for t in (s if isinstance(s, list) else [s]):
            if not (np.isin(t.p01, [0, 1]).all() and np.isin(t.p10, [0, 1]).all() and np.isin(t.wxx, [0, 1]).all()):
                return False
    return True


def oracle(ev, m):
    if ev.args['method'] != 'cascade':
        return
    x = norm.precipitation(ev)
    d = norm.values(x.daily)
    mo = np.asarray(x.daily.index.month)
    groups = [int(np.isin(mo, [int(a) for a in ms]).sum()) for ms in x.months]
    v = norm.values(x.result)
    if sure(x.stats):
        want = expected(x.daily, x.months, x.stats, x.shift)
        m.close(v, want, 'hourly precipitation with seasonal statistics', rtol=1e-9, atol=1e-12 * np.nansum(d) + 1e-300,
                index=x.result.index, months=x.months, daily=x.daily)
    else:
        # the missing pattern and the daily sums do not depend on the draws
        full = x.full & ~np.isnan(d)
        s = int(x.shift)
        for i in range(len(d)):
            a, b = i * 24 + s, i * 24 + 24 + s
            if a < 0 or b > v.size:
                continue
            day = v[a:b]
            m.check(np.isnan(day).all() if not full[i] else not np.isnan(day).any(),
                    'missing hours of %s' % x.daily.index[i].date(), months=x.months)
            if full[i]:
                m.check(abs(day.sum() - d[i]) <= 1e-9 * (d[i] + 1e-3 * np.nansum(d)), 'sum of %s' % x.daily.index[i].date())
        if s > 0:
            m.check(np.isnan(v[:s]).all(), 'values before the shifted series')
        if s < 0:
            m.check(np.isnan(v[s:]).all(), 'values after the shifted series')
        m.tag('realisation')
    if sum(1 for k in groups if k > 1) > 1:
        m.tag('several seasons')
    if sum(groups) < len(d):
        m.tag('uncovered month')
    if 1 in groups:
        m.tag('single day season')
    if x.shift > 0:
        m.tag('shift forward')
    if x.shift < 0:
        m.tag('shift back')
    if np.isnan(d).any():
        m.tag('missing day')
    if x.daily.index[0].year != x.daily.index[-1].year:
        m.tag('year wrap')
    m.judged(digest([x.daily, str(x.months), x.stats, x.shift]), nontrivial=bool((d[x.full] > 0).any()), n=len(d),
             sample=common.describe(first=x.daily.index[0], days=len(d), months=x.months, shift=x.shift, values=d[:5].tolist()))


def subset(ev, m):
    a = ev.args
    df = a['dataframe']
    ms = a['months']
    ms = list(range(1, 13)) if isinstance(ms, str) else [int(k) for k in ms]
    keep = np.isin(np.asarray(df.index.month), ms)
    want = ref.ts_us(df.index)[keep]
    got = ref.ts_us(ev.result.index)
    m.check(len(want) == len(got) and (np.sort(want) == got).all(), 'days of the season', months=ms)
    pos = np.argsort(want, kind='stable')
    src = df[keep].iloc[pos]
    m.close(norm.values(ev.result), norm.values(src), 'values of the season')
    m.tag('subset')
    m.judged(digest([df, str(ms)]), nontrivial=bool(keep.any()))


ORACLES = {'Station.disaggregate_precipitation': oracle, 'seasonal_subset': subset}


def case(g, m):
    import melodist
    idx = g.days(lo=2, n=g.i(200, 800) if g.chance(0.12) else None, hi=120)
    p = g.precip(len(idx))
    df = pd.DataFrame(dict(precip=p, tmin=280.0), index=idx)
    if g.chance(0.25):
        df = df.loc[g.gappy(idx, lo=2)]
    s = melodist.Station(lon=10, lat=50, timezone=1, data_daily=df)
    months = g.seasons()
    if g.chance(0.2):
        months = [[m_] for m_ in sorted(set(int(k) for k in idx.month))][:g.i(1, 6)]
    kind = 'deterministic' if g.chance(0.85) else 'random'
    s.statistics.precip.months = months
    s.statistics.precip.stats = [common.casc_stats(g, s.data_daily.precip, kind=kind) for _ in months]
    s.disaggregate_precipitation(method='cascade')
    s.disaggregate_precipitation(method='cascade', shift=g.pick([1, 7, -6, -1, 24, 30, -25]))
    if g.chance(0.3):
        s.disaggregate_precipitation(method='cascade', shift=0)
    ms = g.pick(list(months))
    melodist.seasonal_subset(df if g.chance(0.5) else df.precip, months=ms if g.chance(0.8) else 'all')
