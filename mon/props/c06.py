"""Temperature disaggregation preserves the quantities each method promises."""
import numpy as np

from .. import common, norm, tempwork
from ..snap import digest

ID = 'C06'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded daily temperatures, place, method and options per case; every day fulfilling the conditions of the statement is one '
        'evaluation; non-trivial if the daily range is positive; distinct by data and options')
REQUIRED = list(common.TEMP) + list(common.WHEN) + ['night', 'station', 'first day', 'last day', 'zero range', 'gap', 'function']
ATOL = 1e-8


def oracle(ev, m):
    p = tempwork.prepare(ev)
    x = p.x
    m.check(p.v is not None, 'wrong number of hourly values')
    course = norm.course(x.course) if not p.sine else None
    judged = 0
    for i in range(p.n):
        a, b = p.tmin[i], p.tmax[i]
        day = p.v[i]
        what = '%s, %s' % (x.method, p.days[i])
        if np.isnan(a) or np.isnan(b):
            continue
        if p.sine:
            if p.near_dark[i]:
                continue
            k0 = i if i == 0 else p.prev[i]
            k1 = i if i == p.n - 1 else p.next[i]
            if k0 < 0 or k1 < 0:
                continue
        if x.method in ('sine', 'sine_min_max'):
            near = [i, k0, k1]
            if np.isnan(p.tmin[near]).any() or np.isnan(p.tmax[near]).any():
                continue
            lo, hi = p.lo[i], p.hi[i]
            if not (12 <= hi <= 23 and lo < hi):
                continue
            m.check(not np.isnan(day).any(), what + ': missing values')
            m.check(abs(day[hi] - b) <= ATOL, what + ': maximum %r at %d h, got %r' % (b, hi, day[hi]))
            m.check((np.abs(day[:hi] - a) <= ATOL).any(), what + ': minimum %r not reached before %d h' % (a, hi), hours=day.tolist())
            m.check((day >= p.tmin[near].min() - ATOL).all() and (day <= p.tmax[near].max() + ATOL).all(),
                    what + ': value outside the range of the neighbouring days', hours=day.tolist())
            if i == 0:
                m.tag('first day')
            if i == p.n - 1:
                m.tag('last day')
            m.tag(x.when)
            if x.night:
                m.tag('night')
        elif x.method in ('sine_mean', 'mean_course_mean'):
            t = p.temp[i]
            if np.isnan(t):
                continue
            m.check(abs(day.mean() - t) <= ATOL, what + ': mean %r instead of %r' % (day.mean(), t))
            m.check(abs(day.max() - day.min() - (b - a)) <= ATOL, what + ': range %r instead of %r' % (day.max() - day.min(), b - a))
        else:
            c = course[p.days[i].month]
            if abs(c.min()) > 1e-12 or abs(c.max() - 1) > 1e-12:
                continue
            m.check(abs(day.max() - b) <= ATOL and abs(day.min() - a) <= ATOL, what + ': extremes %r/%r instead of %r/%r' % (
                day.min(), day.max(), a, b))
        if a == b:
            m.tag('zero range')
        judged += 1
    if judged:
        m.tag(x.method)
        m.tag('station' if norm.is_station(ev) else 'function')
        if p.n > 1 and (p.days[-1] - p.days[0]).days != p.n - 1:
            m.tag('gap')
        m.judged(digest([x.daily, x.sun, x.method, x.when, x.night, x.delta if p.sine else x.course]),
                 nontrivial=bool((p.tmax > p.tmin).any()), n=judged,
                 sample=common.describe(method=x.method, when=x.when, night=x.night, first=p.days[0], days=p.n,
                                        tmin=p.tmin[:3].tolist(), tmax=p.tmax[:3].tolist()))


ORACLES = {'disaggregate_temperature': oracle, 'Station.disaggregate_temperature': oracle}


def case(g, m):
    tempwork.drive(g, m)
