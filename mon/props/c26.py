"""Calibrated daily courses are the means of the matching observations."""
import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import digest

ID = 'C26'
N = dict(quick=900, thorough=9000)
RULE = ('seeded hourly observations with missing values, missing days and partial days per case; every calibrated mean is compared with the '
        'mean of the matching observations; distinct by observations')
REQUIRED = ['course', 'normalised course', 'shift', 'humidity', 'statistics temp', 'statistics hum', 'statistics glob', 'missing values',
            'few months', 'several years', 'partial days', 'day without data', 'tied maximum', 'absent days', 'leap day', 'dry and wet']
PLACE = {}


def course_of(s, normalize):
    """{month: {hour: mean}}."""
    acc = {}
    for mo, h, v in zip(s.index.month, s.index.hour, norm.values(s)):
        a = acc.setdefault(int(mo), {}).setdefault(int(h), [0.0, 0])
        if v == v:
            a[0] += v
            a[1] += 1
    out = {mo: {h: a[0] / a[1] if a[1] else np.nan for h, a in d.items()} for mo, d in acc.items()}
    if normalize:
        for mo, d in out.items():
            k = [v for v in d.values() if v == v]
            lo, hi = (min(k), max(k)) if k else (np.nan, np.nan)
            out[mo] = {h: (v - lo) / (hi - lo) if hi > lo else None for h, v in d.items()}
    return out


def check_course(m, df, s, normalize, what):
    want = course_of(s, normalize)
    got = {(int(mo), int(h)): float(df.loc[h, mo]) for mo in df.columns for h in df.index}
    for mo, d in want.items():
        for h, v in d.items():
            if v is None:
                continue
            if v != v:
                m.check((mo, h) not in got or np.isnan(got[mo, h]), '%s: value for month %d hour %d without observation' % (what, mo, h))
                continue
            m.check((mo, h) in got, '%s: no value for month %d hour %d' % (what, mo, h))
            m.check(abs(got[mo, h] - v) <= 1e-9 * (1 + abs(v)), '%s: month %d hour %d is %r instead of %r' % (what, mo, h, got[mo, h], v))
    for (mo, h), v in got.items():
        if h not in want.get(mo, {}):
            m.check(np.isnan(v), '%s: value for month %d hour %d without observation' % (what, mo, h))
    return sum(len(d) for d in want.values())


def check_shift(m, r, s, place, what):
    days = {}
    for t, v in zip(s.index, norm.values(s)):
        if v == v:
            d = t.date()
            if d not in days or v > days[d][0]:
                days[d] = (v, t.hour)
            elif v == days[d][0]:
                m.tag('tied maximum')
    ds = sorted(days)
    noon = ref.sun_times(ds, *place)[:, 1]
    acc = {}
    for d, n in zip(ds, noon):
        acc.setdefault(d.month, []).append(days[d][1] - n)
    got = {int(k): float(v) for k, v in r.items()}
    for mo, v in acc.items():
        w = sum(v) / len(v)
        m.check(mo in got and abs(got[mo] - w) <= 1e-6, '%s: month %d is %r instead of %r' % (what, mo, got.get(mo), w))
    for mo, v in got.items():
        m.check(mo in acc or np.isnan(v), '%s: value for month %d without observation' % (what, mo))
    return len(acc)


def check_hum(m, r, df, what):
    rain, acc = {}, {}
    dates = ref.day_list(df.index)
    for d, p in zip(dates, norm.values(df.precip)):
        rain[d] = rain.get(d, False) or p > 0
    for d, h, v in zip(dates, df.index.hour, norm.values(df.hum)):
        a = acc.setdefault((d.month, int(h), bool(rain[d])), [])
        if v == v:
            a.append(v)
    got = {(int(k[0]), int(k[1]), bool(k[2])): float(v) for k, v in r.items()}
    for k, v in acc.items():
        if not v:
            m.check(k not in got or np.isnan(got[k]), '%s: value for %r without observation' % (what, k))
            continue
        w = sum(v) / len(v)
        m.check(k in got, '%s: no value for %r' % (what, k))
        m.check(abs(got[k] - w) <= 1e-9 * (1 + abs(w)), '%s: %r is %r instead of %r' % (what, k, got[k], w))
    for k, v in got.items():
        m.check(k in acc or np.isnan(v), '%s: value for %r without observation' % (what, k))
    if len({k[2] for k in acc}) == 2:
        m.tag('dry and wet')
    return len(acc)


def seen(m, ev, obs, n):
    m.judged(digest([ev.fn, obs, ev.args.get('normalize')]), n=n, sample=common.describe(call=ev.fn, first=obs.index[0], rows=len(obs)))
    mo = set(obs.index.month)
    if len(mo) < 12:
        m.tag('few months')
    if len(set(obs.index.year)) > 1:
        m.tag('several years')
    v = np.asarray(obs, float)
    if np.isnan(v).any():
        m.tag('missing values')
    d = ref.day_list(obs.index)
    if obs.index[0].hour or obs.index[-1].hour != 23:
        m.tag('partial days')
    if (d[-1] - d[0]).days + 1 > len(set(d)):
        m.tag('absent days')
    if any((x.month, x.day) == (2, 29) for x in set(d)):
        m.tag('leap day')


def course(ev, m):
    a = ev.args
    s = a['data_hourly']
    n = check_course(m, ev.result, s, a['normalize'], 'mean course')
    m.tag('normalised course' if a['normalize'] else 'course')
    seen(m, ev, s, n)


def shift(ev, m):
    a = ev.args
    s = a['temp_hourly']
    n = check_shift(m, ev.result, s, (float(a['lon']), float(a['lat']), float(a['time_zone'])), 'shift')
    k = s.notna().groupby(s.index.date).sum()
    if (k == 0).any():
        m.tag('day without data')
    m.tag('shift')
    seen(m, ev, s, n)


def humidity(ev, m):
    df = ev.args['hourly_data_obs']
    n = check_hum(m, ev.result, df, 'humidity means')
    m.tag('humidity')
    seen(m, ev, df[['hum', 'precip']], n)


def stat_temp(ev, m):
    a = ev.after
    n = check_course(m, a.temp['mean_course'], ev.before.data.temp, True, 'calibrated mean course')
    n += check_shift(m, a.temp['max_delta'], ev.before.data.temp, PLACE[id(ev.recv)], 'calibrated shift')
    m.tag('statistics temp')
    seen(m, ev, ev.before.data.temp, n)


def stat_hum(ev, m):
    n = check_hum(m, ev.after.hum['month_hour_precip_mean'], ev.before.data, 'calibrated humidity means')
    m.tag('statistics hum')
    seen(m, ev, ev.before.data[['hum', 'precip']], n)


def stat_glob(ev, m):
    n = check_course(m, ev.after.glob['mean_course'], ev.before.data.glob, False, 'calibrated radiation course')
    m.tag('statistics glob')
    seen(m, ev, ev.before.data.glob, n)


ORACLES = {'calculate_mean_daily_course_by_month': course, 'get_shift_by_data': shift, 'calculate_month_hour_precip_mean': humidity,
           'StationStatistics.calc_temperature_stats': stat_temp, 'StationStatistics.calc_humidity_stats': stat_hum,
           'StationStatistics.calc_radiation_stats': stat_glob}


def case(g, m):
    import melodist
    PLACE.clear()
    idx = g.days(n=g.pick([g.i(2, 10), g.i(10, 50), g.i(50, 100), g.i(380, 800)]) if g.chance(0.3) else g.i(2, 60))
    if g.chance(0.25):
        idx = g.gappy(idx, lo=2)
    df = g.hourly(idx)
    if g.chance(0.3):
        df['temp'] = df.temp.round()
    if g.chance(0.3):
        a, b = g.i(0, 20), g.i(1, 20)
        df = df.iloc[a:len(df) - b]
    if g.chance(0.1):
        df = df.loc[g.r.random_sample(len(df)) < 0.7]
    if not len(df) or df.temp.notna().sum() < 3 or df.hum.notna().sum() < 3:
        return
    place = g.place()
    u = melodist.util
    if g.chance(0.5):
        melodist.get_shift_by_data(df.temp, *place)
        u.calculate_mean_daily_course_by_month(g.pick([df.temp, df.glob, df.wind]), normalize=g.chance(0.5))
        melodist.calculate_month_hour_precip_mean(df)
    else:
        if g.chance(0.5):
            st = melodist.StationStatistics(data=df, lon=place[0], lat=place[1], timezone=place[2])
        else:
            s = melodist.Station(lon=place[0], lat=place[1], timezone=place[2])
            st = s.statistics
            st.data = df
        PLACE[id(st)] = tuple(float(x) for x in place)
        st.calc_temperature_stats()
        if df[['temp', 'hum']].dropna().groupby(lambda t: t.date()).size().shape[0] > 2:
            st.calc_humidity_stats()
        st.calc_radiation_stats()
