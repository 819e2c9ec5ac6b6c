"""Building blocks of the workloads."""
import numpy as np
import pandas as pd

from . import ref

WIND = ('equal', 'cosine', 'random')
TEMP = ('sine_min_max', 'sine_mean', 'sine', 'mean_course_min_max', 'mean_course_mean')
WHEN = ('fix', 'sun_loc', 'sun_loc_shift')
HUM = ('equal', 'minimal', 'dewpoint_regression', 'min_max', 'linear_dewpoint_variation', 'month_hour_precip_mean')
RAD = ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course')


def casc(table, threshold, percentile=50):
    import melodist
    c = melodist.cascade.CascadeStatistics()
    c.p01, c.p10, c.pxx, c.wxx = table
    c.threshold = np.atleast_1d(np.asarray(threshold, float))
    c.percentile = percentile
    return c


def thresholds(g, daily, n):
    """Volume thresholds that separate the volumes occurring in the series."""
    v = np.asarray(daily, float)
    v = v[v > 0]
    s = float(np.median(v)) if len(v) else 1.0
    t = np.sort(s * g.r.uniform(0.05, 1.5, n))
    if g.chance(0.2) and len(v):
        t[g.i(0, n - 1)] = float(g.pick(list(v)))  # ties
    if g.chance(0.1):
        t[:] = g.pick([0.0, 1e9])
    return t


def casc_stats(g, daily, levels=5, kind=None, per_level=None):
    """Statistics for one season: a single object or one per level."""
    kind = g.pick(['random', 'sparse', 'deterministic']) if kind is None else kind
    per_level = g.chance(0.4) if per_level is None else per_level
    t = thresholds(g, daily, levels)
    if per_level:
        return [casc(g.table(kind), [t[i]]) for i in range(levels)]
    return casc(g.table(kind), t)


def station(g, df, place=None, calibrated=True):
    """Station with daily data and (assigned) calibration."""
    import melodist
    lon, lat, tz = g.place(polar=False) if place is None else place
    s = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=df)
    if calibrated:
        calibrate(g, s)
    return s


def calibrate(g, s):
    st = s.statistics
    st.wind.update(a=g.u(-0.8, 0.8) * g.pick([1, 1, 3]), b=g.u(0.5, 1.4), t_shift=g.u(0, 24))
    st.temp.max_delta = g.max_delta()
    st.temp.mean_course = g.course()
    st.hum.update(a0=g.u(-40, 40), a1=g.u(0.85, 1.1), kr=g.pick([6, 12]), month_hour_precip_mean=g.mhpm())
    st.glob.angstroem = g.monthly(['a', 'b'], [(0.1, 0.4), (0.3, 0.8)])
    st.glob.bristcamp = g.monthly(['a', 'c'], [(0.5, 0.9), (0.8, 2.8)])
    st.glob.mean_course = g.course(normalised=False)
    d = s.data_daily
    if d is not None and 'precip' in d:
        months = g.seasons()
        st.precip.months = months
        st.precip.stats = [casc_stats(g, d.precip) for _ in months]


def sun_frame(days, lon, lat, tz):
    r = ref.sun_times(ref.day_list(days), lon, lat, tz)
    return pd.DataFrame(r[:, :4], index=days, columns=['sunrise', 'sunnoon', 'sunset', 'daylength'])


def hourly_temp(g, df):
    """Plausible hourly temperature for the days of a daily frame."""
    n = len(df)
    lo = np.asarray(df.tmin, float)[:, None]
    hi = np.asarray(df.tmax, float)[:, None]
    h = np.arange(24)[None, :]
    v = (lo + hi) / 2 + (hi - lo) / 2 * np.cos(2 * np.pi * (h - 14) / 24) + g.r.normal(0, g.pick([0, 0.5, 3]), (n, 24))
    return pd.Series(v.ravel(), index=g.hours(df.index))


def describe(**kw):
    return {k: str(v)[:160] for k, v in kw.items()}
