"""Saving and loading statistics reproduces them and their results."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import common
from ..snap import CASC, Snap, digest

ID = 'C19'
N = dict(quick=450, thorough=6000)
RULE = ('seeded statistics, assigned or calibrated from hourly observations, complete or partly, are written to a file and read back; '
        'every number is compared, then both sets disaggregate the same record with the same random state; distinct by statistics')
REQUIRED = ['assigned', 'calibrated', 'few months', 'all months', 'averaged', 'per level', 'seasons', 'temp', 'wind', 'hum', 'precip', 'glob',
            'empty', 'text', 'round numbers', 'more levels', 'same results', 'cascade results', 'json string']


def plain(x):
    """Comparable form: nested dicts of floats."""
    if isinstance(x, Snap):
        return {k: plain(x.get(k)) for k in CASC}
    if isinstance(x, pd.DataFrame):
        return {'%s,%s' % (int(i) if isinstance(i, (int, np.integer, float)) else i, c): float(x.loc[i, c]) for c in x.columns for i in x.index}
    if isinstance(x, pd.Series):
        return {','.join(str(int(t)) for t in (k if isinstance(k, tuple) else (k,))): float(v) for k, v in x.items()}
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, np.ndarray)):
        return {str(i): plain(v) for i, v in enumerate(x)}
    if x is None:
        return None
    return float(x)


def compare(m, a, b, path):
    if isinstance(a, dict) or isinstance(b, dict):
        m.check(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), 'statistics %s: entries differ after reading' % path,
                written=sorted(a)[:30] if isinstance(a, dict) else a, read=sorted(b)[:30] if isinstance(b, dict) else b)
        for k in a:
            compare(m, a[k], b[k], path + '.' + k)
        return
    if a is None or b is None:
        m.check(a is None and b is None, 'statistics %s: %r became %r' % (path, a, b))
        return
    m.check((a != a and b != b) or abs(a - b) <= 1e-9, 'statistics %s: %r became %r' % (path, a, b))


def wrote(ev, m):
    if ev.args['filename'] is None:
        m.check(isinstance(ev.result, str) and ev.result.lstrip().startswith('{'), 'no JSON text returned')
        m.tag('json string')


ORACLES = {'StationStatistics.to_json': wrote}


def calibrated(g, m):
    """Statistics from observations, some of them."""
    import melodist
    n = g.pick([g.i(10, 40), g.i(40, 80), 370])
    idx = g.days(n=n)
    df = g.hourly(idx, missing=False, rain=g.rain(n * 24, p_wet=0.35))
    lon, lat, tz = g.place(polar=False)
    s = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=melodist.util.daily_from_hourly(df))
    s.statistics.data = df
    which = [k for k in ('temp', 'wind', 'hum', 'precip', 'glob') if g.chance(0.65)]
    st = s.statistics
    months = sorted(set(int(t) for t in idx.month))
    if 'temp' in which:
        st.calc_temperature_stats()
    if 'wind' in which:
        st.calc_wind_stats()
    if 'hum' in which:
        st.calc_humidity_stats()
    if 'precip' in which:
        if n >= 370 and g.chance(0.6):
            seasons = [[12, 1, 2], [3, 4, 5], np.array([6, 7, 8]), [9, 10, 11]]
        else:
            seasons = None
        # a season may be dry at some level, which cannot be calibrated
        st.calc_precipitation_stats(months=seasons, avg_stats=g.chance(0.5), percentile=g.pick([50, 50, 30, 75]))
    if 'glob' in which:
        if g.chance(0.5):
            st.calc_radiation_stats()
        else:
            st.calc_radiation_stats(s.data_daily, s.sun_times.daylength if g.chance(0.7) else None, 'all')
    for k in which:
        m.tag(k)
    m.tag('all months' if len(months) == 12 else 'few months')
    m.tag('calibrated')
    return s, which, n


def edge(g, m, st, which):
    """Replaces some numbers by zeros, whole, negative, small or large ones."""
    def number():
        return g.pick([0.0, 0, 1, 1.0, -1.0, -0.0, 0.5, -2, 1e-6, 1e-9, 3, 12.0, 1234.5])

    for k, names in (('wind', ('a', 'b', 't_shift')), ('hum', ('a0', 'a1'))):
        if k in which:
            for name in names:
                if g.chance(0.5):
                    getattr(st, k)[name] = number()
    if 'hum' in which and g.chance(0.5):
        st.hum['kr'] = g.pick([6, 12])
    if 'temp' in which and g.chance(0.5):
        d = st.temp.max_delta.copy()
        d[:] = [g.pick([0.0, 1.0, 2.0, -1.0, 0.25]) for _ in d]
        st.temp.max_delta = d
    if 'precip' in which and g.chance(0.5):  # statistics for 5-minute steps, any percentile
        for c in st.precip.stats:
            if not isinstance(c, list):
                c.threshold = np.append(c.threshold, g.r.uniform(0.1, 30, g.pick([4, 5, 6])))
                c.percentile = g.pick([50, 0, 100, 62.5, 33.3])
                m.tag('more levels')
    if 'glob' in which and g.chance(0.5):
        for name in ('angstroem', 'bristcamp'):
            d = st.glob[name].copy()
            d.iloc[g.i(0, 11), g.i(0, 1)] = g.pick([0.0, 1.0, 0.5, 1e-6])
            st.glob[name] = d


def assigned(g, m):
    idx = g.days(lo=2, hi=60)
    df = g.daily(idx, missing=g.chance(0.5))
    s = common.station(g, df)
    st = s.statistics
    which = [k for k in ('temp', 'wind', 'hum', 'precip', 'glob')]
    if g.chance(0.5):
        fresh = type(st)()
        drop = g.pick([0.4, 0.4, 0.4, 1.0])
        for k in list(which):
            if g.chance(drop):
                getattr(st, k).update(getattr(fresh, k))
                which.remove(k)
    if g.chance(0.5):
        edge(g, m, st, which)
        m.tag('round numbers')
    if not which:
        m.tag('empty')
    m.tag('assigned')
    return s, which, len(idx)


def results(s, which, seed, df, place):
    import melodist
    t = melodist.Station(lon=place[0], lat=place[1], timezone=place[2], data_daily=df)
    t.statistics = s
    np.random.seed(seed)
    days = df.index
    meths = ['sine_min_max']
    if 'temp' in which:
        meths = ['sine_min_max', 'mean_course_min_max', 'mean_course_mean']
    out = []
    for meth in meths:
        when = 'sun_loc_shift' if 'temp' in which and meth.startswith('sine') else 'fix'
        t.disaggregate_temperature(meth, when)
        out.append(('temp ' + meth, t.data_disagg.temp.to_numpy()))
    for meth in ['cosine', 'random'] if 'wind' in which else ['random']:
        t.disaggregate_wind(meth)
        out.append(('wind ' + meth, t.data_disagg.wind.to_numpy()))
    if 'hum' in which:
        for meth in ('dewpoint_regression', 'linear_dewpoint_variation', 'month_hour_precip_mean'):
            t.disaggregate_humidity(meth)
            out.append(('hum ' + meth, t.data_disagg.hum.to_numpy()))
    for meth in ['pot_rad_via_ssd', 'pot_rad_via_bc'] + (['mean_course'] if 'glob' in which else []):
        t.disaggregate_radiation(meth)
        out.append(('glob ' + meth, t.data_disagg.glob.to_numpy()))
    if 'precip' in which and len(days) > 1:
        t.disaggregate_precipitation('cascade')
        out.append(('precip cascade', t.data_disagg.precip.to_numpy()))
    return out


def case(g, m):
    import melodist
    from ..snap import snap
    s, which, n = (calibrated if g.chance(0.4) else assigned)(g, m)
    st = s.statistics
    before = snap(st)
    tmp = tempfile.mkdtemp(prefix='stats-')
    try:
        f = os.path.join(tmp, 'stats.json')
        if g.chance(0.25):
            text = st.to_json()
            with open(f, 'w') as o:
                o.write(text)
            m.tag('text')
        else:
            st.to_json(f)
        back = melodist.StationStatistics.from_json(f)
    finally:
        shutil.rmtree(tmp)
    a, b = snap(st), snap(back)
    for k in ('temp', 'wind', 'hum', 'precip', 'glob'):
        x = plain(getattr(a, k))
        compare(m, plain(getattr(before, k)), x, k)
        compare(m, x, plain(getattr(b, k)), k)
    if 'precip' in which and a.precip['stats'] is not None:
        m.tag('per level' if isinstance(a.precip['stats'][0], (list, tuple)) else 'averaged')
        if len(a.precip['stats']) > 1:
            m.tag('seasons')
    m.judged(digest([getattr(a, k) for k in ('temp', 'wind', 'hum', 'precip', 'glob')]), sample=common.describe(calibrated=which, days=n))

    df = s.data_daily
    if n > 60:
        k = g.i(0, n - 50)
        df = df.iloc[k:k + 50]
    # humidity classes not observed have no statistics
    if 'hum' in which:
        t = a.hum['month_hour_precip_mean']
        need = {(d.month, h, bool(p > 0)) for d, p in zip(df.index, df.precip) for h in range(24)}
        if not need <= {(int(u), int(h), bool(w)) for u, h, w in t.index}:
            which = [w for w in which if w != 'hum']
    if 'precip' in which:
        wet = df.precip.sum() > 0
        if not wet:
            which = [w for w in which if w != 'precip']
    place = (s.lon, s.lat, s.timezone)
    seed = g.i(0, 2**31)
    u = results(st, which, seed, df, place)
    v = results(back, which, seed, df, place)
    for (name, p), (_, q) in zip(u, v):
        m.close(q, p, 'results of %s with the statistics read' % name, rtol=1e-6, atol=1e-6)
    m.tag('same results')
    if 'precip' in which:
        m.tag('cascade results')
