"""Workload and preparation shared by the humidity properties."""
import numpy as np

from . import common, norm, ref


def reference(x, days, keep):
    """Reference course (limited, unlimited) and the days on which it is defined without ambiguity."""
    n = len(days)
    d = ref.cols(x.daily, ('hum', 'hum_min', 'hum_max', 'tmin', 'tmax', 'precip'))
    temp = norm.grid(x.temp, n) if x.temp is not None else np.full((n, 24), np.nan)
    table = None
    if x.table is not None:
        table = {(int(k[0]), int(k[1]), bool(k[2])): float(v) for k, v in x.table.items()}
    ok = np.ones(n, bool)
    if x.method == 'min_max':
        ok = ~(d['tmax'] - d['tmin'] < 1e-6)
    elif x.method == 'linear_dewpoint_variation':
        _, nxt = ref.neighbours(days)
        ok = nxt >= 0
        ok[-1] = True
    with np.errstate(all='ignore'):
        lim, raw = ref.humidity(days, x.method, d, temp, x.a0, x.a1, x.kr, table, keep)
    return d, lim, raw, ok


def drive(g, m):
    import melodist
    idx = g.days(hi=400 if g.chance(0.05) else 40)
    if g.chance(0.2):
        idx = g.gappy(idx)
    df = g.daily(idx)
    if g.chance(0.15):  # readings of real instruments
        k = g.r.random_sample(len(df)) < 0.5
        d = g.pick([3.0, 3.0, -120.0])
        df['hum'] = df.hum + np.where(k, d, 0)
        df['hum_max'] = df.hum_max + np.where(k, d, 0)
        df['hum_min'] = df.hum_min + np.where(k, min(d, 0), 0)
        if (df.hum[k] > 100).any():
            m.tag('daily value above 100')
        if (df.hum[k] < 0).any():
            m.tag('daily value below 0')
    temp = common.hourly_temp(g, df)
    if g.chance(0.2):  # unrelated or partly missing temperature
        temp[:] = g.u(240, 300) + g.r.normal(0, g.pick([0.1, 5, 20]), len(temp))
    if g.chance(0.3):
        temp[g.missing(len(temp), 1.0)] = np.nan
    for _ in range(2):
        meth = g.pick(list(common.HUM))
        keep = g.chance(0.5)
        if g.chance(0.4) and (idx[-1] - idx[0]).days == len(idx) - 1:
            s = common.station(g, df.copy())
            with m.silent():
                s.disaggregate_temperature(method=g.pick(['sine_min_max', 'sine_mean', 'mean_course_min_max']),
                                           min_max_time=g.pick(list(common.WHEN)))
            if g.chance(0.3):
                s.disaggregate_humidity(meth, keep)
            else:
                s.disaggregate_humidity(method=meth, preserve_daily_mean=keep)
        else:
            kw = dict(method=meth, preserve_daily_mean=keep)
            if meth in ('dewpoint_regression', 'linear_dewpoint_variation') or g.chance(0.3):
                kw.update(a0=g.u(-40, 40), a1=g.u(0.85, 1.1))
                if g.chance(0.4):
                    kw.update(a0=g.u(-4, 4), a1=1)
            if meth == 'linear_dewpoint_variation' or g.chance(0.3):
                kw.update(kr=g.pick([6, 12]))
            if meth == 'month_hour_precip_mean' or g.chance(0.2):
                t = g.mhpm()
                if g.chance(0.2):
                    t = t.iloc[g.r.permutation(len(t))]
                kw.update(month_hour_precip_mean=t)
            d = df
            if not keep and g.chance(0.3):
                need = dict(equal=['hum'], minimal=['tmin'], dewpoint_regression=['tmin'], linear_dewpoint_variation=['tmin'],
                            min_max=['hum_min', 'hum_max', 'tmin', 'tmax'], month_hour_precip_mean=['precip'])[meth]
                d = df[need]
            melodist.disaggregate_humidity(d, temp=temp, **kw)
