"""Humidity methods follow their dew-point, range or climatological model."""
import numpy as np

from .. import common, humwork, norm, ref
from ..snap import digest

ID = 'C10'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded daily data and hourly temperature per case, two methods each through the function or the station; every hour of the '
        'days with defined model is compared with the reference; non-trivial if some hour is defined; distinct by data and options')
REQUIRED = list(common.HUM[1:]) + ['station', 'function', 'frost', 'thaw', 'wet', 'dry', 'kr 6', 'kr 12', 'gap', 'last day', 'missing precip']


def oracle(ev, m):
    x = norm.humidity(ev)
    days = ref.day_list(x.daily.index)
    n = len(days)
    v = norm.grid(x.result, n)
    m.check(v is not None, 'wrong number of hourly values')
    if x.keep and x.method != 'equal':
        return
    d, lim, raw, ok = humwork.reference(x, days, False)
    if not ok.any():
        return
    m.close(v[ok], lim[ok], 'humidity (%s)' % x.method, rtol=1e-8, atol=1e-7, daily=x.daily, judged=[str(k) for k, o in zip(days, ok) if o])
    if x.method == 'equal':
        return
    m.tag(x.method)
    m.tag('station' if norm.is_station(ev) else 'function')
    if x.method == 'linear_dewpoint_variation':
        m.tag('kr %d' % x.kr)
        m.tag('last day')
    if x.method in ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation'):
        t = norm.values(x.temp)
        if (t < 273.15).any():
            m.tag('frost')
        if (t >= 273.15).any():
            m.tag('thaw')
    if x.method == 'month_hour_precip_mean':
        if (d['precip'] > 0).any():
            m.tag('wet')
        if (d['precip'] == 0).any():
            m.tag('dry')
        if np.isnan(d['precip']).any():
            m.tag('missing precip')
    if n > 1 and (days[-1] - days[0]).days != n - 1:
        m.tag('gap')
    m.judged(digest([x.daily, x.temp, x.method, x.a0, x.a1, x.kr, x.table]), nontrivial=bool((~np.isnan(lim[ok])).any()),
             n=int(ok.sum()) * 24,
             sample=common.describe(method=x.method, a0=x.a0, a1=x.a1, kr=x.kr, first=days[0], days=n, hours=v.ravel()[:5].tolist()))


ORACLES = {'disaggregate_humidity': oracle, 'Station.disaggregate_humidity': oracle}


def case(g, m):
    humwork.drive(g, m)
