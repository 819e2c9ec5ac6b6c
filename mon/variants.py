"""Families of calls that differ in single arguments only, to reveal results remembered under too coarse a key."""
import copy
import os
import tempfile

import numpy as np
import pandas as pd

from . import common
from .props.c01 import master


def flat(x):
    """All numbers of a result in a fixed order."""
    if x is None:
        return np.zeros(0)
    if isinstance(x, (pd.DataFrame, pd.Series)):
        return np.concatenate([flat(x.index), np.asarray(x, dtype=float).ravel()])
    if isinstance(x, pd.DatetimeIndex):
        return x.as_unit('us').asi8.astype(float)
    if isinstance(x, pd.MultiIndex):
        return np.array([[float(v) for v in t] for t in x]).ravel()
    if isinstance(x, pd.Index):
        return np.array([float(v) if not isinstance(v, str) else float(sum(ord(c) * (k + 1) for k, c in enumerate(v))) for v in x])
    if isinstance(x, dict):
        return np.concatenate([np.zeros(0)] + [flat(x[k]) for k in sorted(x, key=str)])
    if isinstance(x, (list, tuple)):
        return np.concatenate([np.zeros(0)] + [flat(v) for v in x])
    if isinstance(x, str):
        return np.array([float(sum(ord(c) * (k + 1) for k, c in enumerate(x)))])
    if hasattr(x, 'wxx'):
        return np.concatenate([np.ravel(np.asarray(v, float)) for v in (x.p01, x.p10, x.pxx, x.wxx, x.threshold, x.percentile)])
    return np.asarray(x, dtype=float).ravel()


def bumped(x, k, d):
    """Copy with one value changed."""
    x = x.copy()
    v = x.to_numpy(dtype=float).copy()
    if v.ndim == 1:
        v[k] = v[k] + d
        return pd.Series(v, index=x.index, name=x.name)
    raise TypeError


def frame(df, col, k, d):
    df = df.copy()
    df[col] = bumped(df[col].astype(float), k, d)
    return df


def family(g, base, changes, call):
    """Closures of call(**args) for the base arguments and with each of the changes."""
    out = []
    for ch in [{}] + changes:
        a = dict(base, **ch)

        def run(a=a):
            np.random.seed(7)
            return flat(call(**a))
        out.append(run)
    return out


def near(g, place):
    lon, lat, tz = place
    return [dict(tz=tz + g.pick([1, -1, 0.5])), dict(lon=lon + g.pick([0.5, 7.0, -7.0]) if lon < 170 else lon - 8),
            dict(lat=lat + g.pick([0.3, 9.0, -9.0])), dict(lat=-lat - 0.1)]


def sun(g):
    import melodist
    lon, lat, tz = g.place(polar=False)
    idx = g.days(lo=3, hi=60)
    n = len(idx)
    return family(g, dict(dates=idx, lon=lon, lat=lat, tz=tz), near(g, (lon, lat, tz)) + [
        dict(dates=idx + pd.Timedelta(days=45)), dict(dates=pd.date_range(idx[0], periods=n + 3, freq='D')),
        dict(dates=pd.date_range(idx[0], periods=n, freq='3D')), dict(dates=idx[::-1])],
        lambda dates, lon, lat, tz: melodist.util.get_sun_times(dates, lon, lat, tz))


def potential(g):
    import melodist
    lon, lat, tz = g.place(polar=False)
    t = g.hours(g.days(lo=2, hi=10))
    return family(g, dict(t=t, lon=lon, lat=lat, tz=tz), near(g, (lon, lat, tz)) + [
        dict(slope=20.0, azimuth=90.0), dict(slope=20.0, azimuth=180.0), dict(slope=35.0, azimuth=90.0), dict(cloud=0.4), dict(cloud=0.8),
        dict(split=True), dict(t=t + pd.Timedelta(minutes=20)), dict(t=t + pd.Timedelta(days=30)), dict(t=t[:-5])],
        lambda t, lon, lat, tz, slope=0, azimuth=0, cloud=0, split=False: melodist.potential_radiation(
            t, lon, lat, tz, terrain_slope=slope, terrain_slope_azimuth=azimuth, cloud_fraction=cloud, split=split))


def vapour(g):
    import melodist
    f = g.pick([melodist.util.vapor_pressure, melodist.util.dewpoint_temperature])
    n = g.i(3, 40)
    t = pd.Series(g.r.uniform(250, 305, n), index=g.days(n=n))
    h = pd.Series(g.r.uniform(5, 100, n), index=t.index)
    k = g.i(1, n - 1)
    return family(g, dict(t=t, h=h), [dict(h=bumped(h, k, -2)), dict(t=bumped(t, k, 3)), dict(t=t[:-1], h=h[:-1]), dict(h=h * 0.5)],
                  lambda t, h: f(t, h))


def temperature(g):
    import melodist
    idx = g.days(lo=4, hi=40)
    df = g.daily(idx, missing=False, extras=False, zero_range=False)
    k = g.i(1, len(idx) - 1)
    s = common.sun_frame(idx, 8.0, 50.0, 1)
    s2 = common.sun_frame(idx, 14.0, 50.0, 1)
    d, d2, c, c2 = g.max_delta(), g.max_delta(), g.course(), g.course()
    meth = g.pick(common.TEMP)
    when = g.pick(common.WHEN)
    return family(g, dict(df=df, meth=meth, when=when, night=False, d=d, c=c, s=s), [
        dict(meth=g.pick(common.TEMP)), dict(when=g.pick(common.WHEN)), dict(night=True), dict(d=d2), dict(c=c2), dict(s=s2),
        dict(df=frame(df, 'tmin', k, -1.5)), dict(df=frame(df, 'tmax', k, 1.5)), dict(df=frame(df, 'temp', k, 0.1)),
        dict(df=df.set_axis(idx + pd.Timedelta(days=31)), s=s.set_axis(idx + pd.Timedelta(days=31)))],
        lambda df, meth, when, night, d, c, s: melodist.disaggregate_temperature(df, meth, when, night, d, c, s))


def humidity(g):
    import melodist
    idx = g.days(lo=3, hi=30)
    df = g.daily(idx, missing=False, extras=False)
    t = common.hourly_temp(g, df)
    k = g.i(1, len(idx) - 1)
    mh, mh2 = g.mhpm(), g.mhpm()
    meth = g.pick(common.HUM)
    wet = df.copy()
    wet['precip'] = np.where(np.asarray(df.precip, float) > 0, 0.0, 3.0)
    return family(g, dict(df=df, meth=meth, t=t, a0=2.0, a1=0.98, kr=12, mh=mh, keep=False), [
        dict(meth=g.pick(common.HUM)), dict(t=t + 1), dict(a0=1.0), dict(a1=0.97), dict(kr=6), dict(mh=mh2), dict(keep=True), dict(df=wet),
        dict(df=frame(df, 'hum', k, -1.0)), dict(df=frame(df, 'tmin', k, -2.0)), dict(df=frame(df, 'hum_min', k, -0.5))],
        lambda df, meth, t, a0, a1, kr, mh, keep: melodist.disaggregate_humidity(df, meth, t, a0, a1, kr, mh, keep))


def wind(g):
    import melodist
    w = g.daily(g.days(lo=3, hi=60), missing=False, extras=False).wind.astype(float)
    k = g.i(1, len(w) - 1)
    return family(g, dict(w=w, meth=g.pick(common.WIND), a=0.3, b=1.0, s=14.0), [
        dict(w=bumped(w, k, 1.0)), dict(meth='cosine'), dict(meth='equal'), dict(a=0.2), dict(b=0.9), dict(s=12.0), dict(w=w[:-1])],
        lambda w, meth, a, b, s: melodist.disaggregate_wind(w, meth, a=a, b=b, t_shift=s))


def radiation(g):
    import melodist
    idx = g.days(lo=4, hi=40)
    df = g.daily(idx, missing=False, extras=False, zero_range=False)
    k = g.i(1, len(idx) - 1)
    s = common.sun_frame(idx, 8.0, 50.0, 1)
    s2 = common.sun_frame(idx, 8.0, 40.0, 1)
    t = g.hours(idx)
    p = melodist.potential_radiation(t, 8.0, 50.0, 1)
    ap, bp = g.monthly(['a', 'b'], [(0.1, 0.4), (0.3, 0.8)]), g.monthly(['a', 'c'], [(0.5, 0.9), (0.8, 2.8)])
    mc, mc2 = g.course(normalised=False), g.course(normalised=False)
    return family(g, dict(df=df, s=s, p=p, meth=g.pick(common.RAD), ap=ap, bp=bp, mc=mc), [
        dict(meth=g.pick(common.RAD)), dict(s=s2), dict(p=p * 0.7), dict(ap=ap * 1.1), dict(bp=bp * 0.9), dict(mc=mc2), dict(ap=dict(a=0.2, b=0.5)),
        dict(df=frame(df, 'glob', k, 5)), dict(df=frame(df, 'ssd', k, 0.5)), dict(df=frame(df, 'tmin', k, -1))],
        lambda df, s, p, meth, ap, bp, mc: melodist.disaggregate_radiation(
            df, s, p, meth, angstr_a=ap['a'], angstr_b=ap['b'], bristcamp_a=bp['a'], bristcamp_c=bp['c'], mean_course=mc))


def cascade(g):
    import melodist
    n = g.i(4, 20)
    p = pd.Series(np.where(g.r.random_sample(n) < 0.7, g.r.gamma(1, 5, n), 0), index=g.days(n=n))
    k = g.i(1, n - 1)
    c, c2 = (common.casc_stats(g, p, kind='random', per_level=False) for _ in range(2))
    cl = common.casc_stats(g, p, kind='random', per_level=True)
    cl2 = [copy.deepcopy(x) for x in cl]
    cl2[2] = common.casc_stats(g, p, kind='random', per_level=True)[2]
    c9 = common.casc_stats(g, p, levels=10, kind='random', per_level=False)
    c3 = copy.deepcopy(c)
    c3.threshold = c3.threshold * 0.3
    return family(g, dict(p=p, c=c, hourly=True, level=9), [
        dict(c=c2), dict(c=c3), dict(c=cl), dict(c=cl2), dict(c=c9, hourly=False), dict(c=c9, hourly=False, level=10), dict(p=bumped(p, k, 2.0))],
        lambda p, c, hourly, level: melodist.disagg_prec_cascade(p, c, hourly=hourly, level=level))


def masters(g):
    import melodist
    n = g.i(2, 15)
    p = pd.Series(np.where(g.r.random_sample(n) < 0.7, g.r.gamma(1, 5, n), 0), index=g.days(n=n))
    m1, m2 = master(g, p.index), master(g, p.index)
    return family(g, dict(p=p, m=m1, z='uniform'), [dict(m=m2), dict(z='zeros'), dict(p=bumped(p, 0, 1.0)), dict(m=m1 * 0)],
                  lambda p, m, z: melodist.precip_master_station(p, m, z))


def observations(g):
    import melodist
    idx = g.days(n=g.i(16, 30))
    o = g.hourly(idx, missing=False, rain=g.rain(24 * len(idx), 0.4))
    k = g.i(30, len(o) - 1)
    f = g.pick([lambda o: melodist.fit_cosine_function(o.wind), melodist.calculate_dewpoint_regression,
                melodist.calculate_month_hour_precip_mean, melodist.util.daily_from_hourly,
                lambda o: melodist.util.calculate_mean_daily_course_by_month(o.temp, normalize=True),
                lambda o: melodist.util.calculate_mean_daily_course_by_month(o.temp),
                lambda o: melodist.get_shift_by_data(o.temp, 8.0, 50.0, 1)])
    o2 = o.copy()
    o2[['temp', 'wind', 'hum']] = o[['temp', 'wind', 'hum']] * 0.97
    return family(g, dict(o=o), [dict(o=o2), dict(o=frame(o, 'temp', k, 4)), dict(o=frame(o, 'wind', k, 2)), dict(o=frame(o, 'precip', k, 2)),
                                 dict(o=o[:-24]), dict(o=o[24:])], lambda o: f(o))


def calibration(g):
    import melodist
    idx = g.days(n=g.i(20, 40))
    o = pd.DataFrame(dict(precip=g.rain(24 * len(idx), 0.4)), index=g.hours(idx))
    k = g.i(30, len(o) - 1)
    return family(g, dict(o=o, avg=True, pc=50), [dict(avg=False), dict(pc=80), dict(o=frame(o, 'precip', k, 2.0)), dict(o=o[:-48])],
                  lambda o, avg, pc: melodist.build_casc(o, avg_stats=avg, percentile=pc))


def shift(g):
    import melodist
    lon, lat, tz = g.place(polar=False)
    o = g.hourly(g.days(n=g.i(5, 40)), missing=False)
    return family(g, dict(o=o.temp, lon=lon, lat=lat, tz=tz), near(g, (lon, lat, tz)) + [dict(o=o.temp.iloc[::-1].set_axis(o.index))],
                  lambda o, lon, lat, tz: melodist.get_shift_by_data(o, lon, lat, tz))


def fits(g):
    import melodist
    idx = g.days(n=g.i(12, 60))
    df = g.daily(idx, missing=False, extras=False, zero_range=False)
    pot = pd.Series(g.r.uniform(100, 350, len(idx)), index=idx)
    obs = pot * g.r.uniform(0.2, 0.8, len(idx))
    dl = pd.Series(12.0, index=idx)
    if g.chance(0.5):
        return family(g, dict(ssd=df.ssd, dl=dl, pot=pot, obs=obs), [dict(ssd=df.ssd * 0.8), dict(dl=dl + 3), dict(pot=pot * 1.1), dict(obs=obs * 0.9)],
                      lambda ssd, dl, pot, obs: melodist.fit_angstroem_params(ssd, dl, pot, obs))
    return family(g, dict(a=df.tmin, b=df.tmax, pot=pot, A=0.75, C=2.4), [dict(a=df.tmin - 1), dict(b=df.tmax + 1), dict(pot=pot * 1.1), dict(A=0.6), dict(C=1.9)],
                  lambda a, b, pot, A, C: melodist.bristow_campbell(a, b, pot, A, C))


def indexes(g):
    import melodist
    idx = g.days(n=g.i(6, 40))
    a = pd.DatetimeIndex(list(idx.delete(2)))
    b = pd.DatetimeIndex(list(idx.delete(3)))
    f = g.pick([melodist.util.hourly_index, melodist.fmin_index, lambda i: melodist.util.distribute_equally(pd.Series(np.arange(len(i)) + 1.0, index=i)),
                lambda i: melodist.sub_level_index(i, level=len(i) % 3 + 6)])
    return family(g, dict(i=idx), [dict(i=a), dict(i=b), dict(i=idx[:-1]), dict(i=idx[1:]), dict(i=idx + pd.Timedelta(days=365))], lambda i: f(i))


def subsets(g):
    import melodist
    df = g.daily(g.days(n=g.i(40, 400)), missing=False, extras=False)
    return family(g, dict(df=df[['tmin', 'precip']], months=[12, 1, 2]), [dict(months=[1, 2, 12, 3]), dict(months=[6]), dict(df=df[['tmax', 'wind']]), dict(df=df[['tmin', 'precip']][:-5])],
                  lambda df, months: melodist.seasonal_subset(df, months=months))


def hourly_tools(g):
    import melodist
    t = pd.date_range(g.start() + pd.Timedelta(hours=g.i(0, 23)), periods=g.i(60, 200), freq='h')
    df = pd.DataFrame(dict(x=g.r.random_sample(len(t))), index=t)
    gap = df.drop(df.index[20:23])
    gap2 = df.drop(df.index[[20, 25, 30]])
    if g.chance(0.5):
        return family(g, dict(df=df, step=3600), [dict(df=gap), dict(df=gap2), dict(step=1800), dict(df=df[::2])],
                      lambda df, step: melodist.util.detect_gaps(df, step, verbose=False))
    return family(g, dict(df=df, shift=0), [dict(shift=6), dict(shift=23), dict(df=df[3:]), dict(df=df[:-7])],
                  lambda df, shift: melodist.util.drop_incomplete_days(df, shift=shift))


def fixed_hours(g):
    import melodist
    idx = g.days(n=g.i(3, 10))
    df = pd.DataFrame(g.r.uniform(260, 300, (len(idx), 3)), index=idx, columns=['x', 'y', 'z'])
    return family(g, dict(df=df, hours=dict(x=7, y=14, z=21), limit=23, meth='linear'), [
        dict(hours=dict(x=6, y=14, z=21)), dict(df=frame(df, 'y', 1, 3)), dict(limit=2), dict(meth='nearest')],
        lambda df, hours, limit, meth: melodist.Station(lon=8, lat=50, timezone=1, data_daily=df).interpolate(hours, method=meth, limit=limit))


def smet(g):
    import melodist
    t = g.hours(g.days(n=2))
    df = pd.DataFrame(dict(TA=g.r.uniform(260, 300, len(t)), PSUM=g.r.uniform(0, 3, len(t))), index=t)
    d = tempfile.mkdtemp(prefix='verif-')

    def call(df, meta, mode, nodata):
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 'a.smet')
        melodist.write_smet(f, df, meta, nodata_value=nodata, mode=mode)
        try:
            return list(melodist.read_smet(f, mode))
        finally:
            os.remove(f)
            os.rmdir(d)
    miss = df.copy()
    miss.iloc[3, 0] = np.nan
    r = family(g, dict(df=df, meta={'station_id': 'a'}, mode='h', nodata=-999), [
        dict(df=frame(df, 'TA', 5, 3.0)), dict(df=miss), dict(df=miss, nodata=-777), dict(meta={'station_id': 'b'}), dict(df=df[:-3]), dict(df=df[::24], mode='d')], call)
    os.rmdir(d)
    return r


def statistics_file(g):
    import melodist
    d = tempfile.mkdtemp(prefix='verif-')

    def call(a, delta, casc):
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 's.json')
        st = melodist.StationStatistics(lon=8.0, lat=50.0, timezone=1)
        st.wind.update(a=a, b=1.0, t_shift=14.0)
        st.temp.max_delta = delta
        if casc is not None:
            st.precip.update(months=[np.arange(12) + 1], stats=[casc])
        st.to_json(f)
        try:
            b = melodist.StationStatistics.from_json(f)
        finally:
            os.remove(f)
            os.rmdir(d)
        return [b.wind.a, b.temp.max_delta, b.precip.stats]
    p = np.arange(10.0)
    r = family(g, dict(a=0.2, delta=g.max_delta(), casc=common.casc_stats(g, p, per_level=False)), [
        dict(a=0.3), dict(delta=g.max_delta()), dict(casc=common.casc_stats(g, p, per_level=True)), dict(casc=None)], call)
    os.rmdir(d)
    return r


def stations(g):
    import melodist
    idx = g.days(lo=5, hi=25)
    df = g.daily(idx, missing=False, extras=False, zero_range=False)
    k = g.i(1, len(idx) - 1)
    lon, lat, tz = g.place(polar=False)
    d, c = g.max_delta(), g.course()
    ap, bp, mc = g.monthly(['a', 'b'], [(0.1, 0.4), (0.3, 0.8)]), g.monthly(['a', 'c'], [(0.5, 0.9), (0.8, 2.8)]), g.course(normalised=False)
    mh = g.mhpm()
    cs = common.casc_stats(g, df.precip)
    rad, when = g.pick(common.RAD), g.pick(common.WHEN)

    def call(df, lon, lat, tz, d, c, ap, bp, mc, mh, cs, seasons):
        s = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=df)
        st = s.statistics
        st.temp.update(max_delta=d, mean_course=c)
        st.hum.update(a0=1.0, a1=0.99, kr=12, month_hour_precip_mean=mh)
        st.wind.update(a=0.2, b=0.95, t_shift=14.0)
        st.glob.angstroem, st.glob.bristcamp, st.glob.mean_course = ap, bp, mc
        st.precip.update(months=seasons, stats=[cs for _ in seasons])
        s.disaggregate_temperature('sine_min_max', when)
        s.disaggregate_humidity('month_hour_precip_mean')
        s.disaggregate_wind('cosine')
        s.disaggregate_radiation(rad)
        s.disaggregate_precipitation('cascade')
        return [s.data_disagg[v] for v in ('temp', 'hum', 'wind', 'glob', 'precip')] + [s.sun_times]
    return family(g, dict(df=df, lon=lon, lat=lat, tz=tz, d=d, c=c, ap=ap, bp=bp, mc=mc, mh=mh, cs=cs, seasons=[np.arange(12) + 1]),
                  near(g, (lon, lat, tz)) + [
        dict(df=frame(df, 'tmin', k, -1)), dict(df=frame(df, 'glob', k, 3)), dict(df=frame(df, 'ssd', k, 0.4)), dict(df=frame(df, 'precip', k, 4)),
        dict(d=g.max_delta()), dict(ap=ap * 1.1), dict(bp=bp * 0.9), dict(mc=g.course(normalised=False)), dict(mh=g.mhpm()),
        dict(cs=common.casc_stats(g, df.precip)), dict(seasons=[[3, 4, 5, 6, 7, 8], [1, 2, 9, 10, 11, 12]])], call)


FAMILIES = [sun, potential, vapour, temperature, humidity, wind, radiation, cascade, masters, observations, calibration, shift, fits, indexes, subsets,
            hourly_tools, fixed_hours, smet, statistics_file, stations]
