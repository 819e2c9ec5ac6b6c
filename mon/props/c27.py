"""Fitted parameters are optimal for the calibration data."""
import datetime

import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import diff, digest

ID = 'C27'
N = dict(quick=460, thorough=4600)
RULE = ('seeded observations (noisy or generated by known parameters, with missing values and gaps) per case; the sum of squares of the fit is '
        'compared with that of the closed-form least-squares solution, the bias with that of the default parameters; distinct by observations')
REQUIRED = ['dew point', 'dew point statistics', 'cosine', 'sunshine', 'temperature range', 'station dew point', 'station cosine', 'all', 'seasonal',
            'monthly', 'sunshine untouched', 'range untouched', 'exact data', 'missing values', 'absent days', 'longer observations', 'overcast days', 'calm days', 'winds of some hours']
PLACE = {}
DEF = (0.75, 2.4)


def lsq(X, y):
    X, y = np.asarray(X, float), np.asarray(y, float)
    p = np.linalg.lstsq(X, y, rcond=None)[0]
    return p, float(((X @ p - y) ** 2).sum())


def optimal(m, X, y, pred, what):
    """The prediction leaves hardly more squares than the best one."""
    p, best = lsq(X, y)
    got = float(((np.asarray(pred, float) - y) ** 2).sum())
    scale = float((np.asarray(y, float) ** 2).sum())
    m.check(got <= best + 1e-7 * scale + 1e-12, '%s: sum of squares %r, but %r is possible' % (what, got, best))
    if best < 1e-14 * scale:
        m.tag('exact data')
    return p


def by_day(idx, *vals):
    out = {}
    for d, *v in zip(ref.day_list(idx), *vals):
        out.setdefault(d, []).append(v)
    return out


def check_dew(m, df, a1, a0, what):
    x, y = [], []
    for d, rows in by_day(df.index, norm.values(df.temp), norm.values(df.hum)).items():
        t = [r[0] for r in rows if r[0] == r[0]]
        w = [ref.dewpoint(*r) for r in rows]
        w = [v for v in w if v == v]
        if t and w:
            x.append(min(t))
            y.append(sum(w) / len(w))
    x, y = np.array(x), np.array(y)
    if len(x) < 3 or x.std() < 0.05:
        return 0
    X = np.c_[x - x.mean(), np.ones(len(x))]
    p = optimal(m, X, y - y.mean(), a0 + a1 * x - y.mean(), what)
    m.check(abs(a1 - p[0]) <= 1e-6 * (1 + abs(p[0])), '%s: slope %r instead of %r' % (what, a1, p[0]))
    return len(x)


def check_cos(m, s, par, what):
    a, b, t = (float(v) for v in par)
    M, H, Y = [], [], []
    hours = np.asarray(s.index.hour)
    for d, rows in by_day(s.index, hours, norm.values(s)).items():
        k = [r for r in rows if r[1] == r[1]]
        if k:
            mean = sum(r[1] for r in k) / len(k)
            for h, v in k:
                M.append(mean)
                H.append(h)
                Y.append(v)
    M, H, Y = np.array(M), np.array(H, float), np.array(Y)
    if len(set(H)) < 6 or len(Y) < 24:
        return 0
    X = np.c_[M * np.cos(np.pi * H / 12), M * np.sin(np.pi * H / 12), M]
    p = optimal(m, X, Y, M * (a * np.cos(np.pi * (H - t) / 12) + b), what)
    m.tag('winds of some hours', int(np.hypot(p[0], p[1]) > 1.1))
    return len(Y)


def complete(*series):
    """Days on which all are present, and the values."""
    d = [dict(zip(ref.day_list(s.index), norm.values(s))) for s in series]
    days = sorted(set(d[0]).intersection(*d[1:]))
    days = [x for x in days if all(v[x] == v[x] for v in d)]
    return days, [np.array([v[x] for x in days]) for v in d]


def check_ang(m, days, v, par, what):
    ssd, length, pot, obs = v
    a, b = (float(x) for x in par)
    if len(days) < 3:
        return 0
    f = ssd / length
    if f.std() < 0.01 or pot.max() < 5:
        return 0
    optimal(m, np.c_[pot, pot * f], obs, (a + b * f) * pot, what)
    return len(days)


def bias(days, v, a, c):
    tmin, tmax, pot, obs = v
    w = ref.bristow_campbell(days, tmin, tmax, pot, lambda k: a, lambda k: c)
    e = w - obs
    e = e[~np.isnan(e)]
    return abs(float(e.mean())) if len(e) else np.nan


def check_bc(m, days, v, par, what):
    a, c = (float(x) for x in par)
    b0, b1 = bias(days, v, *DEF), bias(days, v, a, c)
    if b0 != b0:
        return 0
    m.check(b1 <= b0 + 1e-7 * (1 + b0), '%s: bias %r larger than %r of the default parameters' % (what, b1, b0))
    m.tag('bias reduced', int(b1 < 0.01 * b0))
    return len(days)


def obs_tags(m, *series):
    for s in series:
        if np.isnan(np.asarray(s, float)).any():
            m.tag('missing values')
        d = ref.day_list(s.index)
        if (d[-1] - d[0]).days + 1 > len(set(d)):
            m.tag('absent days')


def seen(m, ev, obs, n):
    if n:
        m.judged(digest([ev.fn, obs, ev.args.get('how')]), n=n, sample=common.describe(call=ev.fn, n=n, how=ev.args.get('how')))


def dew(ev, m):
    df = ev.args['hourly_data_obs']
    r = list(ev.result)
    n = check_dew(m, df, float(r[0]), float(r[1]), 'dew point regression')
    if ev.args['return_stats']:
        m.check(len(r) == 5, 'dew point regression: %d values instead of 5' % len(r))
        m.tag('dew point statistics')
    m.tag('dew point')
    obs_tags(m, df.temp, df.hum)
    seen(m, ev, df[['temp', 'hum']], n)


def cosine(ev, m):
    s = ev.args['wind']
    m.tag('cosine')
    m.tag('calm days', int((s.groupby(s.index.date).max() == 0).any()))
    obs_tags(m, s)
    seen(m, ev, s, check_cos(m, s, ev.result, 'wind cosine'))


def sunshine(ev, m):
    a = ev.args
    s = [a['ssd'], a['day_length'], a['pot_rad_daily'], a['obs_rad_daily']]
    days, v = complete(*s)
    m.tag('sunshine')
    m.tag('overcast days', int((v[0] == 0).any()))
    obs_tags(m, *s)
    seen(m, ev, s, check_ang(m, days, v, ev.result, 'sunshine model'))


def range_model(ev, m):
    a = ev.args
    s = [a['tmin'], a['tmax'], a['pot_rad_daily'], a['obs_rad_daily']]
    days, v = complete(*s)
    m.tag('temperature range')
    obs_tags(m, *s)
    seen(m, ev, s, check_bc(m, days, v, ev.result, 'temperature-range model'))


def st_hum(ev, m):
    h = ev.after.hum
    n = check_dew(m, ev.before.data, float(h['a1']), float(h['a0']), 'calibrated dew point regression')
    m.tag('station dew point')
    seen(m, ev, ev.before.data[['temp', 'hum']], n)


def st_wind(ev, m):
    w = ev.after.wind
    n = check_cos(m, ev.before.data.wind, (w['a'], w['b'], w['t_shift']), 'calibrated wind cosine')
    m.tag('station cosine')
    seen(m, ev, ev.before.data.wind, n)


GROUPS = dict(all=[range(1, 13)], seasonal=[(3, 4, 5), (6, 7, 8), (9, 10, 11), (12, 1, 2)], monthly=[(k,) for k in range(1, 13)])


def st_rad(ev, m):
    a = ev.args
    d = a['data_daily']
    n = 0
    before, after = ev.before.glob, ev.after.glob
    fit_s = d is not None and 'ssd' in d and a['day_length'] is not None
    fit_t = d is not None and 'tmin' in d and 'tmax' in d
    for on, k in ((fit_s, 'angstroem'), (fit_t, 'bristcamp')):
        if not on:
            t = diff(before[k], after[k], k)
            m.check(t is None, 'parameters changed without calibration data: %s' % t)
            m.tag('sunshine untouched' if k == 'angstroem' else 'range untouched')
            n += 1
    if d is not None:
        days = ref.day_list(d.index)
        stamps = [datetime.datetime(x.year, x.month, x.day, h) for x in days for h in range(24)]
        p = ref.potential_radiation(stamps, *PLACE[id(ev.recv)])
        pot = pd.Series((p[:, 0] + p[:, 1]).reshape(-1, 24).mean(axis=1), index=d.index)
        o = by_day(ev.before.data.index, norm.values(ev.before.data.glob))
        od, ov = [], []
        for x, rows in o.items():
            v = [r[0] for r in rows if r[0] == r[0]]
            if v:
                od.append(pd.Timestamp(x))
                ov.append(sum(v) / len(v))
        obs = pd.Series(ov, index=pd.DatetimeIndex(od), dtype=float)
        if set(x.date() for x in od) - set(days):
            m.tag('longer observations')
        for months in GROUPS[a['how']]:
            def part(s):
                return s[np.isin(np.asarray(s.index.month), list(months))]
            if fit_s:
                dd, v = complete(*[part(s) for s in (d.ssd, a['day_length'], pot, obs)])
                for k in months:
                    row = after['angstroem'].loc[k]
                    n += check_ang(m, dd, v, (row['a'], row['b']), 'calibrated sunshine model of month %d (%s)' % (k, a['how']))
            if fit_t:
                dd, v = complete(*[part(s) for s in (d.tmin, d.tmax, pot, obs)])
                first = None
                for k in months:
                    row = after['bristcamp'].loc[k]
                    par = (float(row['a']), float(row['c']))
                    first = first or par
                    m.check(par == first, 'months of one group differ: %r' % (months,))
                    n += check_bc(m, dd, v, par, 'calibrated temperature-range model of month %d (%s)' % (k, a['how']))
        m.tag(a['how'])
    seen(m, ev, [ev.before.data.glob, d], n)


ORACLES = {'calculate_dewpoint_regression': dew, 'fit_cosine_function': cosine, 'fit_angstroem_params': sunshine,
           'fit_bristow_campbell_params': range_model, 'StationStatistics.calc_humidity_stats': st_hum,
           'StationStatistics.calc_wind_stats': st_wind, 'StationStatistics.calc_radiation_stats': st_rad}


def exact_wind(g, df):
    """Wind following the cosine exactly."""
    n = len(df) // 24
    day = np.repeat(g.r.uniform(1, 9, n), 24)
    h = np.asarray(df.index.hour)
    return day * (g.u(0.05, 0.6) * np.cos(np.pi * (h - g.u(0, 24)) / 12) + 1.0)


def breeze(g, df):
    """Wind blowing for some hours of the day only."""
    n = len(df) // 24
    day = np.repeat(g.r.uniform(1, 9, n), 24)
    h = np.asarray(df.index.hour)
    v = day * np.clip(np.cos(np.pi * (h - g.u(0, 24)) / 12) - g.u(-0.1, 0.5), 0, None)
    return v * g.r.uniform(0.9, 1.1, len(v))


def daily_rad(g, idx, place, exact):
    """Daily data and day lengths with observed radiation of either model."""
    d = g.daily(idx, missing=not exact, extras=False)
    sun = common.sun_frame(idx, *place)
    p = ref.potential_radiation([t.to_pydatetime() for t in g.hours(idx)], *place)
    pot = (p[:, 0] + p[:, 1]).reshape(-1, 24).mean(axis=1)
    share = g.r.uniform(0, 1, len(idx))
    if g.chance(0.5):
        share[g.r.random_sample(len(idx)) < 0.25] = g.pick([0.0, 0.0, 1.0])
    d['ssd'] = sun.daylength * share
    if not exact and g.chance(0.5):
        d.loc[g.missing(len(idx), 1.0), 'ssd'] = np.nan
        if d.ssd.notna().sum() < 5:
            d['ssd'] = sun.daylength * g.r.uniform(0, 1, len(idx))
    a, b = g.u(0.1, 0.35), g.u(0.3, 0.7)
    per_month = g.chance(0.5)
    A = g.r.uniform(0.1, 0.35, 13) if per_month else np.full(13, a)
    B = g.r.uniform(0.3, 0.7, 13) if per_month else np.full(13, b)
    mo = np.asarray(idx.month)
    obs = (A[mo] + B[mo] * (d.ssd / sun.daylength).fillna(0.4).to_numpy()) * pot
    if not exact:
        obs = obs * g.r.uniform(0.6, 1.2, len(idx))
    return d, sun, pot, obs


def case(g, m):
    import melodist
    PLACE.clear()
    x = g.pick([0, 0, 0, 1, 1, 2, 2, 2, 3, 3, 3])
    if x <= 1:
        idx = g.days(n=g.i(4, 60))
        if g.chance(0.2):
            idx = g.gappy(idx, lo=4)
        df = g.hourly(idx)
        df['hum'] = df.hum.clip(lower=2)
        if g.chance(0.2):
            df.loc[df.index.normalize().isin(idx[g.r.random_sample(len(idx)) < 0.2]), 'wind'] = 0.0
        if g.chance(0.3):
            df['wind'] = exact_wind(g, df)
        elif g.chance(0.25):
            df['wind'] = breeze(g, df)
        if g.chance(0.2):
            df = df.iloc[g.i(0, 20):len(df) - g.i(0, 20)]
        if df[['temp', 'hum']].dropna().groupby(lambda t: t.date()).size().shape[0] < 4 or df.wind.notna().sum() < 48:
            return
        if x == 0:
            melodist.calculate_dewpoint_regression(df, return_stats=g.chance(0.3))
            melodist.fit_cosine_function(df.wind)
        else:
            st = melodist.StationStatistics(data=df)
            st.calc_humidity_stats()
            st.calc_wind_stats()
        return
    exact = g.chance(0.3)
    place = (8.86, 51.0, 1)
    while True:
        place = g.place(polar=False)
        if abs(place[1]) < 58:
            break
    if x == 2:
        idx = g.days(n=g.i(12, 400))
        d, sun, pot, obs = daily_rad(g, idx, place, exact)
        if g.chance(0.3):
            d = d.loc[g.gappy(idx, lo=10)]
        pot = pd.Series(pot, index=idx)
        obs = pd.Series(obs, index=idx)
        if g.chance(0.3) and not exact:
            obs[g.missing(len(idx), 1.0)] = np.nan
        if g.chance(0.5):
            if pd.concat([d.ssd, obs], axis=1, join='inner').dropna().shape[0] >= 5:
                melodist.fit_angstroem_params(d.ssd, sun.daylength, pot, obs)
        elif pd.concat([d.tmin, d.tmax, obs], axis=1, join='inner').dropna().shape[0] >= 5:
            melodist.fit_bristow_campbell_params(d.tmin, d.tmax, pot, obs)
        return
    how = g.pick(['all', 'all', 'seasonal', 'monthly'])
    n = g.i(12, 60) if how == 'all' and g.chance(0.7) else g.i(366, 500)
    idx = g.days(n=n)
    d, sun, pot, obs = daily_rad(g, idx, place, exact)
    if how != 'all':  # every group needs data
        full = g.daily(idx, missing=False, zero_range=False, extras=False)
        for c in ('tmin', 'tmax'):
            d[c] = full[c]
        if d.ssd.isna().sum() > 20:
            d['ssd'] = sun.daylength * g.r.uniform(0, 1, n)
    k = np.repeat(np.clip(obs, 0, None), 24) * np.tile(g.r.dirichlet(np.ones(24)) * 24, n)
    hdf = pd.DataFrame(dict(glob=k), index=g.hours(idx))
    if not exact and g.chance(0.4):
        hdf.loc[g.r.random_sample(len(hdf)) < 0.05, 'glob'] = np.nan
    if g.chance(0.3):
        cut = g.i(1, 3)
        d = d.iloc[cut:len(d) - cut]
    elif how == 'all' and g.chance(0.3):
        d = d.loc[g.gappy(d.index, lo=10)]
    if pd.concat([d.tmin, d.tmax], axis=1).dropna().shape[0] < 5 or d.ssd.notna().sum() < 5:
        return
    drop = g.u()
    if drop < 0.15:
        d = d.drop(columns='ssd')
    elif drop < 0.3:
        d = d.drop(columns=g.pick([['tmin'], ['tmax'], ['tmin', 'tmax']]))
    if g.chance(0.5):
        st = melodist.StationStatistics(data=hdf, lon=place[0], lat=place[1], timezone=place[2])
    else:
        s = melodist.Station(lon=place[0], lat=place[1], timezone=place[2])
        st = s.statistics
        st.data = hdf
    PLACE[id(st)] = tuple(float(v) for v in place)
    length = sun.daylength if g.chance(0.5) else sun.daylength.loc[d.index]
    y = g.u()
    if y < 0.1:
        st.calc_radiation_stats(how=how)
    elif y < 0.25:
        st.calc_radiation_stats(d, how=how)
    else:
        st.calc_radiation_stats(d, length, how)
