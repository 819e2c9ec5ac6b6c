"""Brings events of the functions and of the station methods into one form per variable."""
import datetime

import numpy as np
import pandas as pd

from . import ref
from .snap import Snap


class N:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def values(x):
    return np.asarray(x, dtype=float)


def grid(x, n, per_day=24):
    """Result values as (days x steps)."""
    v = values(x)
    if v.size != n * per_day:
        return None
    return v.reshape(n, per_day)


def monthly(x):
    """Parameter as function of the month."""
    if isinstance(x, pd.Series):
        d = {int(k): float(v) for k, v in x.items()}
        return lambda m: d[m]
    return lambda m: float(x)


def course(df):
    if df is None:
        return None
    return {int(c): values(df[c].sort_index()) for c in df.columns}


def wind(ev):
    if ev.fn == 'disaggregate_wind':
        a = ev.args
        return N(daily=a['wind_daily'], method=a['method'], a=a['a'], b=a['b'], t_shift=a['t_shift'], result=ev.result)
    s = ev.before
    w = s.statistics.wind
    return N(daily=s.data_daily['wind'], method=ev.args['method'], a=w['a'], b=w['b'], t_shift=w['t_shift'],
             result=ev.after.data_disagg['wind'])


def temperature(ev):
    if ev.fn == 'disaggregate_temperature':
        a = ev.args
        return N(daily=a['data_daily'], method=a['method'], when=a['min_max_time'], night=a['mod_nighttime'],
                 delta=a['max_delta'], course=a['mean_course'], sun=a['sun_times'], result=ev.result)
    s = ev.before
    a = ev.args
    return N(daily=s.data_daily, method=a['method'], when=a['min_max_time'], night=a['mod_nighttime'],
             delta=s.statistics.temp['max_delta'], course=s.statistics.temp['mean_course'], sun=s.sun_times,
             result=ev.after.data_disagg['temp'])


def humidity(ev):
    a = ev.args
    if ev.fn == 'disaggregate_humidity':
        return N(daily=a['data_daily'], method=a['method'], temp=a['temp'], a0=a['a0'], a1=a['a1'], kr=a['kr'],
                 table=a['month_hour_precip_mean'], keep=a['preserve_daily_mean'], result=ev.result)
    s = ev.before
    h = s.statistics.hum
    return N(daily=s.data_daily, method=a['method'], temp=s.data_disagg['temp'], a0=h['a0'], a1=h['a1'], kr=h['kr'],
             table=h['month_hour_precip_mean'], keep=a['preserve_daily_mean'], result=ev.after.data_disagg['hum'])


def radiation(ev):
    a = ev.args
    if ev.fn == 'disaggregate_radiation':
        return N(daily=a['data_daily'], method=a['method'], sun=a['sun_times'], pot=a['pot_rad'], aa=a['angstr_a'],
                 ab=a['angstr_b'], ba=a['bristcamp_a'], bc=a['bristcamp_c'], course=a['mean_course'], result=ev.result,
                 place=None)
    s = ev.before
    g = s.statistics.glob
    sun = ev.after.sun_times
    return N(daily=s.data_daily, method=a['method'], sun=sun, pot=a['pot_rad'], aa=g['angstroem'].a,
             ab=g['angstroem'].b, ba=g['bristcamp'].a, bc=g['bristcamp'].c, course=g['mean_course'],
             result=ev.after.data_disagg['glob'], place=(s.lon, s.lat, s.timezone))


def radiation_shape(x):
    """(days x 24) shape used for scaling: potential radiation or mean course."""
    days = ref.day_list(x.daily.index)
    if x.method == 'mean_course':
        c = course(x.course)
        return np.array([c[d.month] for d in days])
    if x.pot is not None:
        return values(x.pot).reshape(len(days), 24)
    stamps = [datetime.datetime(d.year, d.month, d.day, h) for d in days for h in range(24)]
    p = ref.potential_radiation(stamps, *x.place)
    return (p[:, 0] + p[:, 1]).reshape(len(days), 24)


def precipitation(ev):
    """daily: Series; kind; steps per day; shift; result; judged: positions of days expected to be filled."""
    a = ev.args
    f = ev.fn
    if f == 'disagg_prec':
        m = a['method']
        d = a['dailyData']
        if isinstance(d, pd.DataFrame):
            d = d['precip']
        return N(daily=d, kind=m, per_day=24, shift=a['shift'] if m == 'cascade' else 0, result=ev.result, full=None,
                 master=a['hourly_data_obs'], zerodiv=a['zerodiv'], stats=a['cascade_options'], arrays=None, hourly=True, levels=5)
    if f == 'disagg_prec_cascade':
        r = ev.result[-1] if a['test'] else ev.result
        return N(daily=a['precip_daily'], kind='cascade', per_day=24 if a['hourly'] else 288, shift=a['shift'], result=r,
                 full=None, stats=a['cascade_options'], arrays=ev.result[:-1] if a['test'] else None, hourly=a['hourly'],
                 levels=5 if a['hourly'] else a['level'], zerodiv=None, master=None)
    if f == 'precip_master_station':
        return N(daily=a['precip_daily'], kind='masterstation', per_day=24, shift=0, result=ev.result, full=None,
                 master=a['master_precip_hourly'], zerodiv=a['zerodiv'], stats=None, arrays=None, hourly=True, levels=0)
    s = ev.before
    d = s.data_daily['precip']
    full = None
    if a['method'] == 'cascade':
        full = np.zeros(len(d), bool)
        mo = np.asarray(d.index.month)
        for months in s.statistics.precip['months']:
            sel = np.isin(mo, list(months))
            if sel.sum() > 1:
                full |= sel
    return N(daily=d, kind=a['method'], per_day=24, shift=a['shift'] if a['method'] == 'cascade' else 0,
             result=ev.after.data_disagg['precip'], full=full, master=a['master_precip'], zerodiv=a['zerodiv'],
             stats=s.statistics.precip['stats'], months=s.statistics.precip['months'], arrays=None, hourly=True, levels=5)


def is_station(ev):
    return isinstance(ev.before, Snap)
