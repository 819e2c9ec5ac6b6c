"""Disaggregated radiation keeps the daily mean and the clear-sky shape."""
import numpy as np

from .. import common, norm, radwork
from ..snap import digest

ID = 'C12'
N = dict(quick=2000, thorough=20000)
RULE = ('seeded daily radiation, place and shape per case; every hour of all days is compared with the scaled shape, daily mean and '
        'zero hours are checked separately; non-trivial if some daily value is positive; distinct by data, place and shape')
REQUIRED = ['pot_rad', 'mean_course', 'station', 'function', 'missing day', 'dark day', 'cut value', 'own potential radiation', 'gap', 'polar',
            'pot_rad_via_ssd', 'pot_rad_via_bc', 'dark day pot_rad', 'dark day pot_rad_via_ssd', 'dark day pot_rad_via_bc', 'course of some months']


def oracle(ev, m):
    p = radwork.prepare(ev)
    x = p.x
    m.check(p.v is not None, 'wrong number of hourly values')
    k = p.clear
    m.check((p.v[~np.isnan(p.v)] >= 0).all(), 'negative radiation')
    m.check((p.v[k][(p.shape[k] == 0) & ~np.isnan(p.v[k])] == 0).all(), 'radiation without potential radiation')
    dark = k & (p.shape.mean(axis=1) == 0) & ~np.isnan(p.daily)
    m.check((p.v[dark] == 0).all(), '%s: days without potential radiation are not zero' % x.method, days=[str(p.days[i]) for i in np.flatnonzero(dark)][:5])
    want = radwork.cut(p.v, p.raw)
    m.close(p.v[k], want[k], 'radiation (%s)' % x.method, rtol=1e-6, atol=1e-6, daily=p.daily.tolist(), judged=[str(d) for d, o in zip(p.days, k) if o])
    for i in np.flatnonzero(k):
        if p.shape[i].mean() > 0 and not np.isnan(p.daily[i]):
            m.check(abs(p.v[i].mean() - p.daily[i]) <= 0.01 + 1e-6 * p.daily[i],
                    '%s on %s: mean %r instead of %r' % (x.method, p.days[i], p.v[i].mean(), p.daily[i]))
    m.tag(x.method)
    if x.method == 'mean_course':
        m.tag('course of some months', int(x.course.shape[1] < 12))
    m.tag('station' if norm.is_station(ev) else 'function')
    if np.isnan(p.daily[k]).any():
        m.tag('missing day')
    if dark.any():
        m.tag('dark day')
        m.tag('dark day ' + x.method)
    if ((p.raw[k] > 0) & (p.raw[k] < 0.01)).any():
        m.tag('cut value')
    if norm.is_station(ev) and x.pot is not None:
        m.tag('own potential radiation')
    if p.n > 1 and (p.days[-1] - p.days[0]).days != p.n - 1:
        m.tag('gap')
    if x.place and abs(x.place[1]) > 66.6:
        m.tag('polar')
    m.judged(digest([p.daily, x.method, x.pot, x.place, x.course]), nontrivial=bool((p.daily[k] > 0).any()), n=int(k.sum()) * 24,
             sample=common.describe(method=x.method, place=x.place, first=p.days[0], days=p.n, daily=p.daily[:4].tolist()))


ORACLES = {'disaggregate_radiation': oracle, 'Station.disaggregate_radiation': oracle}


def case(g, m):
    radwork.drive(g, m, methods=('pot_rad', 'mean_course', 'pot_rad', 'mean_course', 'pot_rad_via_ssd', 'pot_rad_via_bc'))
