"""Invalid requests are refused instead of silently producing results."""
import numpy as np
import pandas as pd

from .. import common
from ..core import CaseAbort
from ..snap import diff, digest, snap
from .c01 import master

ID = 'C29'
N = dict(quick=1000, thorough=10000)
RULE = ('stations in seeded states (with and without calibration, with results of earlier requests) get invalid requests of all kinds; each must '
        'raise and leave the public state of the station unchanged; distinct by request, data and state')
ASSUMPTIONS = ['any exception counts as refusal']
BOGUS = ['bogus', '', None, 'Equal', 'sine_minmax', 'linear', 0, 'COSINE', 'cascade ', 'pot_rad_via']


def state(o):
    s = snap(o)
    s.__dict__.pop('sun_times', None)
    return s


def refuse(m, what, f, *objs):
    before = [state(o) for o in objs]
    try:
        with m.refused():
            r = f()
    except CaseAbort:
        raise
    except Exception as e:  # noqa: BLE001
        exc = e
    else:
        m.fail('not refused: %s' % what, result=r)
    for o, b in zip(objs, before):
        d = diff(b, state(o))
        m.check(d is None, 'refused request (%s, %s) changed the state: %s' % (what, type(exc).__name__, d))
    m.tag(what)
    m.judged(digest([what, before, m.case]), n=1 + len(objs), sample=common.describe(request=what, raised=repr(exc)))


def station_methods(g, m, s):
    b = g.pick(BOGUS)
    yield 'station: wind method', lambda: s.disaggregate_wind(b)
    yield 'station: temperature method', lambda: s.disaggregate_temperature(b)
    yield 'station: humidity method', lambda: s.disaggregate_humidity(b)
    yield 'station: precipitation method', lambda: s.disaggregate_precipitation(b)
    yield 'station: radiation method', lambda: s.disaggregate_radiation(b)
    yield 'station: time of extremes', lambda: s.disaggregate_temperature(g.pick(['sine_min_max', 'sine_mean', 'sine']), min_max_time=b)
    yield 'station: no master', lambda: s.disaggregate_precipitation('masterstation')
    yield 'station: unknown column', lambda: s.interpolate({'nothing': 7})
    yield 'station: interpolation method', lambda: s.interpolate({'tmin': 7, 'tmax': 14}, method='bogus')


def calibration(g, m, s):
    """Methods without the calibration they need."""
    import melodist
    st = s.statistics
    st.wind.update(a=None, b=None, t_shift=None)
    k = g.pick(['a', 'b', 't_shift', None])
    if k:
        st.wind.update(a=0.1, b=1.0, t_shift=14.0)
        st.wind[k] = None
    st.temp.update(max_delta=None, mean_course=None)
    st.hum.update(a0=None, a1=None, kr=12, month_hour_precip_mean=None)
    if g.chance(0.5):
        st.hum.update(**g.pick([dict(a0=1.0), dict(a1=1.0)]))
    st.glob.mean_course = None
    st.precip.update(months=None, stats=None)
    yield 'uncalibrated cosine', lambda: s.disaggregate_wind('cosine')
    yield 'uncalibrated shift', lambda: s.disaggregate_temperature(g.pick(['sine_min_max', 'sine_mean']), 'sun_loc_shift')
    yield 'uncalibrated mean course', lambda: s.disaggregate_temperature(g.pick(['mean_course_min_max', 'mean_course_mean']))
    yield 'uncalibrated dew point', lambda: s.disaggregate_humidity(g.pick(['dewpoint_regression', 'linear_dewpoint_variation']))
    yield 'uncalibrated humidity means', lambda: s.disaggregate_humidity('month_hour_precip_mean')
    yield 'uncalibrated radiation course', lambda: s.disaggregate_radiation('mean_course')
    yield 'uncalibrated cascade', lambda: s.disaggregate_precipitation('cascade')

    def kr(v):
        def f():
            st.hum.update(a0=1.0, a1=0.99)
            st.hum.kr = v
        return f
    kr(g.pick([None, 0, 5, 24, 3, 7.5, -12, '12']))()
    yield 'kr of the station', lambda: s.disaggregate_humidity('linear_dewpoint_variation')

    # calibration without or with unusable observations
    n = melodist.StationStatistics(lon=8.0, lat=50.0, timezone=1)
    common_stats(g, n)
    yield 'no observations: wind', lambda: n.calc_wind_stats(), n
    yield 'no observations: humidity', lambda: n.calc_humidity_stats(), n
    yield 'no observations: temperature', lambda: n.calc_temperature_stats(), n
    yield 'no observations: radiation', lambda: n.calc_radiation_stats(), n
    yield 'no observations: precipitation', lambda: n.calc_precipitation_stats(months=g.seasons()), n
    o = melodist.StationStatistics(data=g.hourly(g.days(n=5), missing=False), lon=8.0, lat=50.0, timezone=1)
    common_stats(g, o)
    yield 'radiation grouping', lambda: o.calc_radiation_stats(how=g.pick(['bogus', 'daily', None, 'Monthly', '', 'yearly'])), o


def common_stats(g, st):
    """Earlier calibration, which must survive."""
    st.wind.update(a=0.2, b=1.0, t_shift=3.0)
    st.temp.max_delta = g.max_delta()
    st.precip.months = [np.arange(12) + 1]
    st.precip.stats = [common.casc_stats(g, np.array([1.0, 2.0]))]


def cascade(g, m, s):
    d = s.data_daily.precip.fillna(1.0)
    st = s.statistics
    good = common.casc_stats(g, d, per_level=True)
    hourly = g.chance(0.6)
    n = 5 if hourly else 9
    lists = {'too few levels': good[:-1] if hourly else good, 'too many levels': good + good[:1] if hourly else good * 2, 'no level': []}
    import melodist
    for k, v in lists.items():
        if hourly:
            yield 'cascade: ' + k, lambda v=v: melodist.disagg_prec(d, 'cascade', cascade_options=v)
        else:
            yield 'cascade: ' + k, lambda v=v: melodist.disagg_prec_cascade(d, v, hourly=False, level=9)
    wrong = g.pick([None, 'stats', 5, dict(p01=1), tuple(good), np.zeros(3), dict(enumerate(good))])
    yield 'cascade: wrong kind', lambda: melodist.disagg_prec_cascade(d, wrong, hourly=hourly)
    yield 'cascade: wrong kind', lambda: melodist.disagg_prec(d, 'cascade', cascade_options=wrong)
    months = g.pick([[np.arange(12) + 1], [[1, 2, 3, 4, 5, 6], [7, 8, 9, 10, 11, 12]]])
    bad = g.pick([lists['too few levels'] if hourly else good[:2], 'stats', tuple(good), [], 3.0])
    st.precip.update(months=months, stats=[bad for _ in months])
    yield 'station: cascade statistics', lambda: s.disaggregate_precipitation('cascade')
    if len(d) > 1:
        yield 'cascade: single day', lambda: melodist.disagg_prec(d.iloc[:1], 'cascade', cascade_options=good)
    st.precip.update(months=[[1, 2, 3, 4, 5, 6], [7, 8, 9, 10, 11, 12]], stats=[good])
    yield 'station: seasons without statistics', lambda: s.disaggregate_precipitation('cascade')


def functions(g, m, s):
    import melodist
    d = s.data_daily
    b = g.pick(BOGUS)
    t = common.hourly_temp(g, d)
    sun = common.sun_frame(d.index, 8.0, 50.0, 1)
    pot = pd.Series(100.0, index=t.index)
    yield 'wind method', lambda: melodist.disaggregate_wind(d.wind, b)
    yield 'temperature method', lambda: melodist.disaggregate_temperature(d, b, sun_times=sun)
    yield 'time of extremes', lambda: melodist.disaggregate_temperature(d, g.pick(['sine_min_max', 'sine_mean', 'sine']), b, sun_times=sun)
    yield 'humidity method', lambda: melodist.disaggregate_humidity(d, b, temp=t)
    yield 'precipitation method', lambda: melodist.disagg_prec(d, b)
    yield 'radiation method', lambda: melodist.disaggregate_radiation(d, sun, pot, b)
    p = dict(a=0.1, b=1.0, t_shift=14.0)
    k = g.pick(list(p))
    yield 'cosine parameter', lambda: melodist.disaggregate_wind(d.wind, 'cosine', **(dict(p, **{k: None}) if g.chance(0.5) else {x: v for x, v in p.items() if x != k}))
    yield 'no shift', lambda: melodist.disaggregate_temperature(d, 'sine_min_max', 'sun_loc_shift', sun_times=sun)
    yield 'no mean course', lambda: melodist.disaggregate_temperature(d, g.pick(['mean_course_min_max', 'mean_course_mean']))
    yield 'no sun times', lambda: melodist.disaggregate_temperature(d, g.pick(['sine_min_max', 'sine_mean']), g.pick(['sun_loc', 'sun_loc_shift']), max_delta=g.max_delta())
    yield 'dew point parameter', lambda: melodist.disaggregate_humidity(d, g.pick(['dewpoint_regression', 'linear_dewpoint_variation']), temp=t,
                                                                        kr=12, **g.pick([dict(a0=1.0), dict(a1=1.0), {}]))
    yield 'kr', lambda: melodist.disaggregate_humidity(d, 'linear_dewpoint_variation', temp=t, a0=1.0, a1=1.0, kr=g.pick([None, 0, 5, 24, 3, 7.5, -6, '6']))
    yield 'no humidity means', lambda: melodist.disaggregate_humidity(d, 'month_hour_precip_mean')
    yield 'no humidity extremes', lambda: melodist.disaggregate_humidity(d.drop(columns=g.pick(['hum_min', 'hum_max'])), 'min_max', temp=t)
    yield 'no temperature', lambda: melodist.disaggregate_humidity(d, g.pick(['minimal', 'min_max']))
    yield 'no radiation course', lambda: melodist.disaggregate_radiation(d, method='mean_course')
    yield 'no potential radiation', lambda: melodist.disaggregate_radiation(d, sun, method=g.pick(['pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc']))
    yield 'no cascade statistics', lambda: melodist.disagg_prec(d.precip, 'cascade')
    yield 'no master', lambda: melodist.disagg_prec(d.precip, 'masterstation')
    yield 'shape of humidity', lambda: melodist.util.vapor_pressure(t, np.full(len(t) + 1, 50.0))
    yield 'shape of humidity', lambda: melodist.util.dewpoint_temperature(t, t.iloc[1:] * 0 + 50.0)


def bad_daily(g, d):
    """Frames that are no daily records."""
    n = len(d)
    x = g.i(0, 8)
    if x == 0:
        return 'no frame', g.pick([None, d.tmin, d.to_dict(), d.to_numpy(), 'x', [1, 2]])
    if x == 1:
        return 'no time index', d.reset_index(drop=True)
    if x == 2:
        return 'hourly records', d.set_axis(pd.date_range(d.index[0], periods=n, freq=g.pick(['h', '3h', '30min', '5min'])))
    if x == 3:
        e = d.copy()
        e.index = d.index + pd.Timedelta(hours=g.i(1, 23))
        return 'records not at midnight', e
    if x == 4:
        return 'unsorted', d.iloc[::-1]
    if x == 5:
        p = list(range(n))
        i = g.i(0, n - 2)
        p[i], p[i + 1] = p[i + 1], p[i]
        return 'unsorted', d.iloc[p]
    if x == 6:
        i = g.i(0, n - 1)
        p = sorted(list(range(n)) + [i])
        return 'repeated day', d.iloc[p]
    e = d.copy()
    for c in ('tmin', 'tmax', 'temp'):
        e[c] = e[c].astype(float)
    c = g.pick(['tmin', 'tmax'])
    if x == 7:
        k = ['tmin', 'tmax', 'temp'] if g.chance(0.5) else [c]
        e[k] = e[k].fillna(285.0) - 273.15
        return 'degrees Celsius', e
    e.loc[e.index[g.i(0, n - 1)], c] = g.pick([199.99, 0.0, -5.0, 20.3, -999.0, 150.0])
    return 'implausible temperature', e


def bad_hourly(g, h):
    x = g.i(0, 4)
    if x == 0:
        return 'daily observations', h.iloc[::24]
    if x == 1:
        return 'finer observations', h.set_axis(pd.date_range(h.index[0], periods=len(h), freq=g.pick(['5min', '10min', '30min', '15s', 'min'])))
    if x == 2:
        return 'no frame of observations', g.pick([h.temp, 'x', h.to_numpy(), [1], 7])
    if x == 3:
        return 'observations without time', h.reset_index(drop=True)
    return 'observations off the hour', h.set_axis(h.index + pd.Timedelta(minutes=g.i(1, 59)))


def assignments(g, m, s):
    import melodist
    for _ in range(3):
        what, e = bad_daily(g, s.data_daily)
        yield 'daily data: ' + what, lambda e=e: setattr(s, 'data_daily', e)
        if e is not None and g.chance(0.3):
            yield 'new station: ' + what, lambda e=e: melodist.Station(lon=8.0, lat=50.0, timezone=1, data_daily=e)
    h = g.hourly(g.days(n=3), missing=False)
    for _ in range(3):
        what, e = bad_hourly(g, h)
        yield 'calibration data: ' + what, lambda e=e: setattr(s.statistics, 'data', e)
        if g.chance(0.3):
            yield 'new statistics: ' + what, lambda e=e: melodist.StationStatistics(data=e)
    yield 'statistics of wrong kind', lambda: setattr(s, 'statistics', g.pick([None, {}, 'x', 3, dict(s.statistics.temp)]))


KINDS = ('station: wind method', 'station: temperature method', 'station: humidity method', 'station: precipitation method',
         'station: radiation method', 'station: time of extremes', 'station: no master',
         'uncalibrated cosine', 'uncalibrated shift', 'uncalibrated mean course', 'uncalibrated dew point', 'uncalibrated humidity means',
         'uncalibrated radiation course', 'uncalibrated cascade', 'kr of the station', 'no observations: wind', 'no observations: precipitation',
         'radiation grouping', 'cascade: too few levels', 'cascade: too many levels', 'cascade: no level', 'cascade: wrong kind',
         'station: cascade statistics', 'station: seasons without statistics', 'wind method', 'temperature method', 'time of extremes', 'humidity method',
         'precipitation method', 'radiation method', 'cosine parameter', 'no shift', 'no mean course', 'kr',
         'no humidity means', 'no radiation course', 'no cascade statistics', 'daily data: no frame', 'daily data: unsorted',
         'daily data: hourly records', 'daily data: degrees Celsius', 'daily data: implausible temperature', 'daily data: no time index',
         'daily data: records not at midnight', 'daily data: repeated day', 'calibration data: daily observations',
         'calibration data: finer observations', 'calibration data: no frame of observations', 'statistics of wrong kind',
         'new station: degrees Celsius', 'new statistics: daily observations')
REQUIRED = list(KINDS)


def case(g, m):
    idx = g.days(n=g.i(200, 400)) if g.chance(0.06) else g.days(n=g.i(3, 25))
    df = g.daily(idx, missing=False, zero_range=False, extras=False)
    place = g.place(polar=False)
    s = common.station(g, df, place=place)
    if g.chance(0.6):  # earlier results
        with m.silent():
            s.disaggregate_temperature('sine_min_max', g.pick(list(common.WHEN)))
            s.disaggregate_wind('equal')
            s.disaggregate_precipitation('equal')
            s.disaggregate_humidity('minimal')
            if g.chance(0.5):
                s.disaggregate_radiation('pot_rad')
    if g.chance(0.3):
        with m.silent():
            s.statistics.data = g.hourly(g.days(n=3), missing=False)
    part = g.pick([station_methods, calibration, cascade, functions, assignments])
    for what, f, *objs in part(g, m, s):
        refuse(m, what, f, s, *objs)
