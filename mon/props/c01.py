"""Disaggregated precipitation preserves the daily totals."""
import numpy as np
import pandas as pd

from .. import common, norm
from ..snap import digest

ID = 'C01'
N = dict(quick=2500, thorough=25000)
RULE = ('one seeded daily precipitation series with one disaggregation call per case and method; '
        'non-trivial if at least one day is wet; distinct by input series, method and options')
REQUIRED = ['equal', 'cascade', 'masterstation', 'station', '5min', 'level9', 'level10', 'level11', 'missing day', 'gap',
            'shift', 'per level', 'two days', 'one day']


def oracle(ev, m):
    x = norm.precipitation(ev)
    d = norm.values(x.daily)
    n = len(d)
    v = norm.values(x.result)
    m.check(v.size == n * x.per_day, 'result has %d values for %d days' % (v.size, n))
    if x.kind == 'masterstation' and x.zerodiv != 'uniform':
        return
    total = np.nansum(np.abs(d))
    idx = x.daily.index
    s = int(x.shift)
    dry_ok = v[~np.isnan(v)]
    m.check((dry_ok >= -1e-12 * total).all(), 'negative precipitation %r' % (dry_ok.min() if len(dry_ok) else None))
    for i in range(n):
        a, b = i * x.per_day + s, (i + 1) * x.per_day + s
        if a < 0 or b > v.size:
            continue
        day = v[a:b]
        if x.full is not None and not x.full[i]:
            continue
        if np.isnan(d[i]):
            m.check(np.isnan(day).all(), 'missing day %s has values' % idx[i].date())
            m.tag('missing day')
            continue
        if x.kind == 'masterstation':
            mh = norm.values(x.master[str(idx[i].date())])
            expect_nan = np.isnan(mh) if np.nansum(mh) != 0 else np.zeros(24, bool)
            m.check((np.isnan(day) == expect_nan).all(), 'missing hours differ from those of the master on %s' % idx[i].date())
        else:
            m.check(not np.isnan(day).any(), 'missing values on %s with total %r' % (idx[i].date(), d[i]))
        sm = np.nansum(day)
        m.check(abs(sm - d[i]) <= 1e-9 * (abs(d[i]) + 1e-3 * total) + 1e-300,
                'day %s: sum %r instead of %r' % (idx[i].date(), sm, d[i]), method=x.kind)
        if d[i] == 0:
            m.check((day[~np.isnan(day)] == 0).all(), 'rain on dry day %s' % idx[i].date())
        if x.kind == 'equal':
            m.close(day, np.full(24, d[i] / 24.0), 'equal distribution on %s' % idx[i].date(), rtol=1e-12, atol=0)
    m.tag(x.kind)
    if n == 1:
        m.tag('one day')
    if n == 2:
        m.tag('two days')
    if s:
        m.tag('shift')
    if x.per_day == 288:
        m.tag('5min')
        m.tag('level%d' % x.levels)
    if isinstance(x.stats, list) and not norm.is_station(ev):
        m.tag('per level')
    if norm.is_station(ev):
        m.tag('station')
    if n > 1 and (idx[-1] - idx[0]).days != n - 1:
        m.tag('gap')
    m.judged(digest([ev.fn, x.kind, x.per_day, s, x.daily, x.stats]), nontrivial=bool((d > 0).any()), n=n,
             sample=common.describe(call=ev.fn, method=x.kind, first=idx[0], days=n, per_day=x.per_day, shift=s, values=d[:6].tolist()))


ORACLES = {k: oracle for k in ('disagg_prec', 'disagg_prec_cascade', 'precip_master_station',
                               'Station.disaggregate_precipitation')}


def master(g, idx):
    """Hourly record of a master station covering the days (and possibly more)."""
    lo = idx[0] - pd.Timedelta(days=g.i(0, 3))
    hi = idx[-1] + pd.Timedelta(days=g.i(0, 3))
    full = pd.date_range(lo, hi, freq='D') if g.chance(0.7) else idx
    h = pd.Series(g.rain(len(full) * 24), index=g.hours(full))
    if g.chance(0.3):
        h[g.r.random_sample(len(h)) < g.pick([0.1, 0.1, 0.7])] = np.nan
    if g.chance(0.15):
        h[str(g.pick(list(idx)).date())] = np.nan
    return h


def case(g, m):
    import melodist
    kind = g.pick(['equal', 'cascade', 'cascade', 'cascade', 'master', 'station', 'station', 'station'])
    five = kind == 'cascade' and g.chance(0.35)
    idx = g.days(lo=2 if kind == 'cascade' else 1, hi=12 if five else 400 if g.chance(0.1) else 60)
    if kind in ('equal', 'cascade', 'master') and g.chance(0.35):
        idx = g.gappy(idx, lo=2 if kind == 'cascade' else 1)
    n = len(idx)
    p = pd.Series(g.precip(n), index=idx)
    if kind == 'equal':
        df = pd.DataFrame(dict(precip=p, other=1.0))
        if g.chance(0.5):
            melodist.disagg_prec(df, method='equal')
        else:
            melodist.disagg_prec(df)
    elif kind == 'master':
        f = g.pick(['uniform', 'uniform', 'uniform', 'none'])
        h = master(g, idx)
        if g.chance(0.5):
            melodist.precip_master_station(p, h, f)
        else:
            melodist.disagg_prec(p, method='masterstation', hourly_data_obs=h, zerodiv=f)
    elif kind == 'cascade':
        level = g.pick([9, 10, 11]) if five else 5
        st = common.casc_stats(g, p, levels=level)
        sh = g.pick([0, 0, 0, 7, -5, 25, 1])
        x = g.u()
        if not five and x < 0.3:
            melodist.disagg_prec(p, method='cascade', cascade_options=st, shift=sh)
        elif five:
            kw = {} if level == 9 and g.chance(0.5) else dict(level=level)
            melodist.disagg_prec_cascade(p, st, hourly=False, shift=sh, test=g.chance(0.3), **kw)
        else:
            melodist.disagg_prec_cascade(p, st, shift=sh, test=g.chance(0.3))
    else:
        df = g.daily(idx)
        df['precip'] = g.precip(n)
        if g.chance(0.3):
            df = df.loc[g.gappy(idx)]
        s = common.station(g, df)
        s.disaggregate_precipitation(method='equal')
        s.disaggregate_precipitation(method='cascade', shift=g.pick([0, 0, 0, 3, -7]))
        s.disaggregate_precipitation(method='masterstation', master_precip=master(g, s.data_daily.index))
        if g.chance(0.3):
            s.disaggregate_precipitation(method='cascade')
