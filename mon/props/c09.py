"""Relative humidity stays between 0 and 100 percent and can keep its mean."""
import numpy as np

from .. import common, humwork, norm, ref
from ..snap import digest

ID = 'C09'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded daily data and hourly temperature per case, two methods each through the function or the station; every day is one '
        'evaluation; non-trivial if some hour is defined; distinct by data and options')
REQUIRED = list(common.HUM) + ['kept mean', 'limited above', 'limited below', 'missing mean', 'missing hours', 'station', 'function', 'gap',
                               'zero range', 'daily value above 100', 'daily value below 0']


def oracle(ev, m):
    x = norm.humidity(ev)
    days = ref.day_list(x.daily.index)
    n = len(days)
    v = norm.grid(x.result, n)
    m.check(v is not None, 'wrong number of hourly values')
    known = ~np.isnan(v)
    m.check((v[known] >= 0).all() and (v[known] <= 100).all(), '%s: humidity outside 0-100' % x.method,
            values=v[known & ((v < 0) | (v > 100))][:5].tolist())
    d, _, raw, ok = humwork.reference(x, days, False)
    if x.keep:
        hum = d['hum']
        for i in range(n):
            if np.isnan(hum[i]):
                if ok[i]:
                    m.close(v[i], np.clip(raw[i], 0, 100), '%s on %s: course without daily mean' % (x.method, days[i]), atol=1e-7)
                    m.tag('missing mean')
            elif known[i].all() and (v[i] > 0).all() and (v[i] < 100).all():
                m.check(abs(v[i].mean() - hum[i]) <= 1e-7, '%s on %s: mean %r instead of %r' % (x.method, days[i], v[i].mean(), hum[i]))
                m.tag('kept mean')
            elif ok[i] and x.method != 'equal' and not np.isnan(raw[i]).any():
                # expected course decides whether an hour had to be limited
                c = raw[i] - raw[i].mean() + hum[i]
                if (c > 1e-6).all() and (c < 100 - 1e-6).all():
                    m.fail('%s on %s: limited without need' % (x.method, days[i]), got=v[i].tolist(), course=c.tolist())
    if x.method == 'equal':
        m.close(v, np.clip(np.repeat(np.asarray(d['hum'])[:, None], 24, 1), 0, 100), 'equal humidity')
    m.tag(x.method)
    m.tag('station' if norm.is_station(ev) else 'function')
    if (v == 100).any():
        m.tag('limited above')
    if (v == 0).any():
        m.tag('limited below')
    if not known.all():
        m.tag('missing hours')
    if x.method == 'min_max' and (d['tmax'] == d['tmin']).any():
        m.tag('zero range')
    if n > 1 and (days[-1] - days[0]).days != n - 1:
        m.tag('gap')
    m.judged(digest([x.daily, x.temp, x.method, x.keep, x.a0, x.a1, x.kr, x.table]), nontrivial=bool(known.any()), n=n,
             sample=common.describe(method=x.method, keep=x.keep, a0=x.a0, a1=x.a1, first=days[0], days=n,
                                    hours=v.ravel()[:5].tolist()))


ORACLES = {'disaggregate_humidity': oracle, 'Station.disaggregate_humidity': oracle}


def case(g, m):
    humwork.drive(g, m)
