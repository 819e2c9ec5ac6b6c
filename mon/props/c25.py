"""Interpolation passes through the fixed-hour measurements."""
import numpy as np

from .. import common, norm, ref
from ..snap import digest

ID = 'C25'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded measurements at one to five fixed hours, partly missing, per case; known measurements, straight lines and the reach of the '
        'filling are checked for every hour; non-trivial if something is filled; distinct by measurements and options')
REQUIRED = ['linear', 'other method', 'limit', 'default limit', 'beyond limit', 'missing measurement', 'forward', 'backward', 'both',
            'completed record', 'one day', 'single hour', 'prepared', 'unordered hours']


def measurements(df, hours):
    days = ref.day_list(df.index)
    v = np.full((len(days), 24), np.nan)
    for c, h in hours.items():
        v[:, int(h)] = norm.values(df[c])
    return v.ravel()


def prepared(ev, m):
    a = ev.args
    want = measurements(a['data_daily'], a['column_hours'])
    m.close(norm.values(ev.result), want, 'prepared measurements')
    m.tag('prepared')
    m.judged(digest([a['data_daily'], str(a['column_hours'])]), n=len(want))


def oracle(ev, m):
    a = ev.args
    kw = dict(a.get('kwargs') or {})
    meth = a['method']
    limit = a['limit']
    way = a['limit_direction']
    obs = measurements(ev.before.data_daily, a['column_hours'])
    n = len(obs)
    v = norm.values(ev.result)
    m.check(len(v) == n, '%d hours instead of %d' % (len(v), n))
    m.check((ref.ts_us(ev.result.index) == ref.hour_steps(ev.before.data_daily.index)).all(), 'time stamps')
    known = np.flatnonzero(~np.isnan(obs))
    m.close(v[known], obs[known], 'values at the measurements', rtol=1e-9, atol=1e-7)
    if len(known):
        pos = np.arange(n)
        k = np.searchsorted(known, pos, side='right')
        before = np.where(k > 0, pos - known[np.maximum(k - 1, 0)], 10**9)
        kk = np.searchsorted(known, pos, side='left')
        after = np.where(kk < len(known), known[np.minimum(kk, len(known) - 1)] - pos, 10**9)
        lim = 10**8 if limit is None else limit
        near = np.zeros(n, bool)
        if way in ('forward', 'both'):
            near |= before <= lim
        if way in ('backward', 'both'):
            near |= after <= lim
        m.check(np.isnan(v[~near]).all(), 'filled more than %r hours from the next measurement' % limit, column_hours=a['column_hours'])
        inner = (before < 10**9) & (after < 10**9)
        if meth == 'linear':
            want = np.interp(pos, known, obs[known])
            s = near & inner
            m.close(v[s], want[s], 'straight line between the measurements', rtol=1e-9, atol=1e-7)
        if (~near).any():
            m.tag('beyond limit')
        filled = bool((~np.isnan(v) & np.isnan(obs)).any())
    else:
        filled = False
    m.tag('linear' if meth == 'linear' else 'other method')
    m.tag('default limit' if limit == 24 else 'limit')
    m.tag(way)
    if np.isnan(norm.values(ev.before.data_daily[list(a['column_hours'])])).any():
        m.tag('missing measurement')
    if n == 24:
        m.tag('one day')
    if len(a['column_hours']) == 1:
        m.tag('single hour')
    h = list(a['column_hours'].values())
    if h != sorted(h):
        m.tag('unordered hours')
    m.judged(digest([obs, meth, limit, way, str(kw)]), nontrivial=filled, n=n,
             sample=common.describe(hours=a['column_hours'], method=meth, limit=limit, direction=way, days=n // 24))


ORACLES = {'Station.interpolate': oracle, 'prepare_interpolation_data': prepared}


def case(g, m):
    import melodist
    import pandas as pd
    idx = g.days(hi=400 if g.chance(0.03) else 30)
    k = g.i(1, 5)
    hours = [int(h) for h in g.r.choice(24, k, replace=False)]
    if g.chance(0.6):
        hours.sort()
    cols = ['T%d' % h for h in hours]
    df = pd.DataFrame({c: g.r.normal(285, 6, len(idx)) for c in cols}, index=idx)
    if g.chance(0.3):
        df['other'] = 1.0
    if g.chance(0.5):
        df = df.mask(pd.DataFrame(g.r.random_sample(df.shape) < g.pick([0.1, 0.4, 0.8]), index=df.index, columns=df.columns))
    ch = dict(zip(cols, hours))
    if g.chance(0.1):
        melodist.util.prepare_interpolation_data(df, ch)
        return
    if g.chance(0.25):
        df = df.loc[g.gappy(idx)]
    s = melodist.Station(lon=10, lat=50, timezone=1, data_daily=df)
    if len(s.data_daily) != len(df):
        m.tag('completed record')
    kw = {}
    if g.chance(0.25):
        kw['method'] = g.pick(['nearest', 'time', 'pchip', 'slinear', 'quadratic'])
        if s.data_daily[cols].notna().sum().sum() < 4:
            kw['method'] = 'time'
    if g.chance(0.4):
        kw['limit'] = g.pick([1, 2, 3, 5, 10, 30, 100])
    if g.chance(0.25):
        kw['limit_direction'] = g.pick(['forward', 'backward'])
    s.interpolate(ch, **kw)
