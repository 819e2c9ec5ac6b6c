"""Operations leave their inputs and unrelated results untouched."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import common, radwork
from ..snap import Snap, diff, digest, snap
from .c01 import master

ID = 'C20'
N = dict(quick=500, thorough=6000)
RULE = ('mixed sequences of calibration, disaggregation, aggregation and export calls on seeded data; after every call its arguments and '
        'the parts of the station or statistics it is not meant to change are compared with copies taken before; distinct by call and '
        'arguments')
WRITES = {'Station.disaggregate_wind': 'wind', 'Station.disaggregate_temperature': 'temp', 'Station.disaggregate_humidity': 'hum',
          'Station.disaggregate_radiation': 'glob', 'Station.disaggregate_precipitation': 'precip'}
CALIBRATES = {'StationStatistics.calc_wind_stats': 'wind', 'StationStatistics.calc_temperature_stats': 'temp',
              'StationStatistics.calc_humidity_stats': 'hum', 'StationStatistics.calc_radiation_stats': 'glob',
              'StationStatistics.calc_precipitation_stats': 'precip'}
REQUIRED = sorted(WRITES) + sorted(CALIBRATES) + [
    'disaggregate_wind', 'disaggregate_humidity', 'disaggregate_temperature', 'disaggregate_radiation', 'disagg_prec', 'disagg_prec_cascade',
    'precip_master_station', 'fit_cosine_function', 'calculate_dewpoint_regression', 'calculate_month_hour_precip_mean',
    'get_shift_by_data', 'build_casc', 'aggregate_precipitation', 'seasonal_subset', 'potential_radiation', 'bristow_campbell',
    'fit_bristow_campbell_params', 'angstroem', 'fit_angstroem_params', 'write_smet', 'distribute_equally', 'hourly_index',
    'vapor_pressure', 'dewpoint_temperature', 'linregress', 'get_sun_times', 'detect_gaps', 'drop_incomplete_days',
    'prepare_interpolation_data', 'daily_from_hourly', 'calculate_mean_daily_course_by_month', 'Station.interpolate',
    'Station.data_daily=', 'StationStatistics.to_json', 'StationStatistics.data=', 'own copy', 'named index', 'named columns', 'metadata',
    'other results present', 'bystander', 'default tables edited']


def named(x):
    if isinstance(x, (pd.Series, pd.DataFrame)):
        return x.index.name is not None or x.attrs
    return False


def every(ev, m):
    after = snap(ev.live)
    for k in ev.args:
        d = diff(ev.args[k], after[k], k)
        if d:
            m.fail('%s changed its argument %s' % (ev.fn, d))
        x = ev.args[k]
        if isinstance(x, (pd.Series, pd.DataFrame)):
            m.check(x.attrs == after[k].attrs, '%s changed the metadata of its argument %s' % (ev.fn, k))
            if x.index.name is not None:
                m.tag('named index')
            if isinstance(x, pd.DataFrame) and x.columns.name is not None:
                m.tag('named columns')
            if x.attrs:
                m.tag('metadata')
            t = x.dtypes if isinstance(x, pd.DataFrame) else x.dtype
            u = after[k].dtypes if isinstance(x, pd.DataFrame) else after[k].dtype
            m.check(list(t) == list(u) if isinstance(x, pd.DataFrame) else t == u, '%s changed the type of its argument %s' % (ev.fn, k))
    b, a = ev.before, ev.after
    if isinstance(b, Snap) and isinstance(a, Snap) and b._kind == 'Station':
        if ev.fn in WRITES or ev.fn in ('Station.interpolate', 'Station.calc_sun_times'):
            d = diff(b.data_daily, a.data_daily, 'data_daily') or diff(b.statistics, a.statistics, 'statistics')
            d = d or diff([b.lon, b.lat, b.timezone, b.id, b.name], [a.lon, a.lat, a.timezone, a.id, a.name], 'place')
            if d:
                m.fail('%s changed the %s of the station' % (ev.fn, d))
            keep = [c for c in b.data_disagg.columns if c != WRITES.get(ev.fn)]
            m.check(list(a.data_disagg.columns) == list(b.data_disagg.columns), '%s changed the columns of the hourly results' % ev.fn)
            d = diff(b.data_disagg[keep], a.data_disagg[keep], 'hourly results')
            if d:
                m.fail('%s changed other %s' % (ev.fn, d))
            if b.data_disagg[keep].notna().any().any():
                m.tag('other results present')
    if isinstance(b, Snap) and isinstance(a, Snap) and b._kind == 'StationStatistics':
        if ev.fn in CALIBRATES or ev.fn.endswith('to_json'):
            for k in ('data', 'temp', 'wind', 'precip', 'hum', 'glob'):
                if k != CALIBRATES.get(ev.fn):
                    d = diff(b.get(k), a.get(k), k)
                    if d:
                        m.fail('%s changed the statistics %s' % (ev.fn, d))
    m.tag(ev.fn)
    m.judged(digest([ev.fn, ev.args, ev.before]), n=1, sample=common.describe(call=ev.fn, arguments=list(ev.args)))


EVERY = every


def label(g, df):
    """Names and metadata that must survive."""
    if g.chance(0.6):
        df.index.name = g.pick(['time', 'date', 'YYYYMMDD_HH'])
    if isinstance(df, pd.DataFrame) and g.chance(0.3):
        df.columns.name = 'variable'
    if g.chance(0.4):
        df.attrs['station'] = 'x'
    return df


def functions(g, m, df, obs, place):
    import melodist
    u = melodist.util
    idx = df.index
    temp = label(g, common.hourly_temp(g, df))
    if g.chance(0.3):
        temp[g.missing(len(temp), 1.0)] = np.nan
    sun = common.sun_frame(idx, *place)
    sun.index.name = df.index.name
    pot = radwork.pot_hours(g, idx, place)
    pot.index.name = df.index.name
    day = pot.resample('D').mean()
    enough = len(df[['tmin', 'tmax', 'ssd']].dropna()) > 3
    calls = [
        lambda: melodist.disaggregate_wind(df.wind, g.pick(list(common.WIND)), 0.3, 0.9, 14.0),
        lambda: melodist.disaggregate_humidity(df, g.pick(list(common.HUM)), temp, 1.0, 0.98, 12, g.mhpm(), g.chance(0.5)),
        lambda: melodist.disaggregate_temperature(df, g.pick(list(common.TEMP)), g.pick(list(common.WHEN)), g.chance(0.3), g.max_delta(), g.course(), sun),
        lambda: melodist.disaggregate_radiation(df, sun, pot, g.pick(list(common.RAD)), mean_course=g.course(normalised=False)),
        lambda: melodist.disagg_prec(df, 'equal'),
        lambda: melodist.disagg_prec(df.precip, 'cascade', cascade_options=common.casc_stats(g, df.precip), shift=g.pick([0, 2, -3])),
        lambda: melodist.disagg_prec_cascade(df.precip, common.casc_stats(g, df.precip, levels=9), hourly=False, level=9, test=g.chance(0.3)),
        lambda: melodist.precip_master_station(df.precip, master(g, idx), g.pick(['uniform', 'zero'])),
        lambda: melodist.fit_cosine_function(obs.wind),
        lambda: melodist.calculate_dewpoint_regression(obs),
        lambda: melodist.calculate_month_hour_precip_mean(obs),
        lambda: melodist.get_shift_by_data(obs.temp, *place),
        lambda: melodist.aggregate_precipitation(obs, percentile=50) if obs.precip.sum() > 5 else None,
        lambda: melodist.seasonal_subset(df, months=g.pick(['all', [1, 2, 3, 7, 8, 9]])),
        lambda: melodist.potential_radiation(pot.index, *place),
        lambda: melodist.bristow_campbell(df.tmin, df.tmax, day, *radwork.params(g, 'b')),
        lambda: melodist.fit_bristow_campbell_params(df.tmin, df.tmax, day, day * 0.5) if enough else None,
        lambda: melodist.angstroem(df.ssd, sun.daylength, day, *radwork.params(g, 'a')),
        lambda: melodist.fit_angstroem_params(df.ssd, sun.daylength, day, day * 0.5 + df.ssd) if enough else None,
        lambda: u.distribute_equally(df.precip, divide=g.chance(0.7)),
        lambda: u.hourly_index(idx, g.chance(0.3)),
        lambda: u.vapor_pressure(obs.temp, obs.hum),
        lambda: u.dewpoint_temperature(obs.temp, obs.hum),
        lambda: u.linregress(df.tmin, df.tmax),
        lambda: u.get_sun_times(idx, *place),
        lambda: u.detect_gaps(obs, 3600, verbose=False),
        lambda: u.drop_incomplete_days(obs.iloc[g.i(0, 20):], shift=g.pick([0, 7])),
        lambda: u.prepare_interpolation_data(df, dict(tmin=7, tmax=14)),
        lambda: u.daily_from_hourly(obs),
        lambda: u.calculate_mean_daily_course_by_month(obs.temp, normalize=g.chance(0.5)),
    ]
    for k in g.r.permutation(len(calls))[:8]:
        calls[k]()
    if g.chance(0.2) and obs.precip.sum() > 5:
        melodist.build_casc(obs, avg_stats=g.chance(0.5))
    if g.chance(0.4):
        tmp = tempfile.mkdtemp(prefix='smet-')
        try:
            daily = g.chance(0.5)
            d = df.drop(columns='temp', errors='ignore') if daily else obs
            meta = dict(station_id='x', latitude=47.2, longitude=11.3, nodata=-1)
            melodist.write_smet(os.path.join(tmp, 'a.smet'), d, meta, g.pick([-999, -1]), 'd' if daily else 'h', g.chance(0.5))
        finally:
            shutil.rmtree(tmp)


def station(g, m, df, obs, place):
    import melodist
    given = df.copy()
    given.attrs = dict(df.attrs)
    s = common.station(g, given, place=place)
    keep = snap(s.data_daily)
    for c in ('tmin', 'wind', 'precip'):
        given[c] = -1.0  # must not reach the station
    given.iloc[:, :] = -5.0
    given.index.name = 'changed'
    d = diff(keep, snap(s.data_daily), 'daily data')
    m.check(d is None, 'changing the assigned frame changed the %s of the station' % d)
    m.tag('own copy')
    ops = [lambda: s.disaggregate_temperature(g.pick(list(common.TEMP)), g.pick(list(common.WHEN)), g.chance(0.3)),
           lambda: s.disaggregate_humidity(g.pick(list(common.HUM)), g.chance(0.4)),
           lambda: s.disaggregate_wind(g.pick(list(common.WIND))),
           lambda: s.disaggregate_radiation(g.pick(list(common.RAD))),
           lambda: s.disaggregate_precipitation(g.pick(['equal', 'cascade']), shift=g.pick([0, 1])),
           lambda: s.disaggregate_precipitation('masterstation', master_precip=master(g, s.data_daily.index)),
           lambda: s.interpolate(dict(tmin=7, tmax=14)),
           lambda: s.calc_sun_times()]
    ops[0]()
    for _ in range(6):
        g.pick(ops)()
    st = s.statistics
    st.data = obs
    cal = [st.calc_wind_stats, st.calc_temperature_stats, st.calc_humidity_stats,
           lambda: st.calc_radiation_stats(*([] if g.chance(0.5) else [melodist.util.daily_from_hourly(obs), None, 'all']))]
    for _ in range(3):
        g.pick(cal)()
    if g.chance(0.2) and obs.precip.sum() > 5:
        st.calc_precipitation_stats(avg_stats=g.chance(0.5))
        g.pick(cal)()
    st.to_json()
    if g.chance(0.5):  # statistics with the default tables
        st = melodist.StationStatistics(obs, *place)
        st.calc_radiation_stats(melodist.util.daily_from_hourly(obs), None, 'all')
        k = g.i(1, 12)
        st.glob.angstroem.loc[k] = 0.3, 0.6
        st.glob.bristcamp.loc[k] = 0.6, 2.1
        st.wind.update(a=0.1, b=0.9, t_shift=3.0)
        st.temp.max_delta = g.max_delta()
        m.tag('default tables edited')


def case(g, m):
    idx = g.days(lo=4, hi=40)
    df = label(g, g.daily(idx, missing=g.chance(0.3), extras=False))
    obs = label(g, g.hourly(g.days(n=g.i(20, 45)), missing=g.chance(0.3), rain=None))
    place = g.place(polar=False)
    import melodist
    with m.silent():
        fresh, other = melodist.StationStatistics(), common.station(g, df, place=place)
        keep = snap(fresh), snap(other)
    (functions if g.chance(0.5) else station)(g, m, df, obs, place)
    d = diff(keep[0], snap(fresh), 'statistics') or diff(keep[1], snap(other), 'station')
    m.check(d is None, 'operations on one station changed another one: %s' % d)
    with m.silent():
        again = melodist.StationStatistics()
    d = diff(keep[0], snap(again), 'statistics')
    m.check(d is None, 'new statistics depend on earlier calibrations: %s' % d)
    m.tag('bystander')
