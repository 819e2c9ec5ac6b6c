"""Hourly temperature follows the selected diurnal course and timing."""
import numpy as np

from .. import common, norm, ref, tempwork
from ..snap import digest

ID = 'C07'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded daily temperatures, place, method and options per case; every hour of days outside polar night is compared with the '
        'reference course; non-trivial if the daily range is positive; distinct by data and options')
REQUIRED = list(common.TEMP) + list(common.WHEN) + ['night', 'station', 'function', 'missing', 'gap', 'fallback', 'early sunrise',
                                                    'single day', 'course of some months']


def oracle(ev, m):
    p = tempwork.prepare(ev)
    x = p.x
    m.check(p.v is not None, 'wrong number of hourly values')
    if p.sine:
        want = ref.sine(p.days, p.tmin, p.tmax, p.temp, p.lo, p.hi, x.method, x.night and x.method != 'sine_mean')
        ok = ~p.near_dark
        if x.night and x.method != 'sine_mean':
            ok &= p.lo < p.hi
    else:
        want = ref.mean_course_temp(p.days, p.tmin, p.tmax, p.temp, norm.course(x.course), x.method)
        ok = np.ones(p.n, bool)
        m.tag('course of some months', int(x.course.shape[1] < 12))
    if not ok.any():
        return
    m.close(p.v[ok], want[ok], 'hourly course (%s, %s, night=%s)' % (x.method, x.when, x.night), rtol=0, atol=1e-7,
            daily=x.daily, sun=x.sun, judged=[str(d) for d, o in zip(p.days, ok) if o])
    m.tag(x.method)
    if p.sine:
        m.tag(x.when)
        if x.night:
            m.tag('night')
        if x.when == 'sun_loc_shift':
            delta = {int(k): float(v) for k, v in x.delta.items()}
            if any(p.lo[i] > round(float(x.sun.sunnoon.iloc[i]) + delta[p.days[i].month]) for i in range(p.n) if ok[i]):
                m.tag('fallback')
        if (norm.values(x.sun.sunrise) > norm.values(x.sun.sunnoon))[ok].any():
            m.tag('early sunrise')
    m.tag('station' if norm.is_station(ev) else 'function')
    if np.isnan(want[ok]).any():
        m.tag('missing')
    if p.n == 1:
        m.tag('single day')
    if p.n > 1 and (p.days[-1] - p.days[0]).days != p.n - 1:
        m.tag('gap')
    m.judged(digest([x.daily, x.sun, x.method, x.when, x.night, x.delta if p.sine else x.course]),
             nontrivial=bool((p.tmax > p.tmin).any()), n=int(ok.sum()) * 24,
             sample=common.describe(method=x.method, when=x.when, night=x.night, first=p.days[0], days=p.n,
                                    tmin=p.tmin[:3].tolist(), tmax=p.tmax[:3].tolist()))


ORACLES = {'disaggregate_temperature': oracle, 'Station.disaggregate_temperature': oracle}


def case(g, m):
    x = g.u()
    if x < 0.12:  # close to the midnight sun, where the sun rises before midnight
        import pandas as pd
        import melodist
        idx = g.days(n=g.i(3, 40), start=pd.Timestamp(2015, g.pick([5, 6, 7]), g.i(1, 28)))
        df = g.daily(idx)
        place = g.pick([(25.7, 66.5, 2), (18.95, 69.65, 1), (30.0, 65.6, 2), (20.0, 65.2, 1)])
        kw = dict(method=g.pick(['sine', 'sine_min_max', 'sine_mean']), min_max_time=g.pick(['sun_loc', 'sun_loc_shift']),
                  mod_nighttime=g.chance(0.3))
        melodist.disaggregate_temperature(df, sun_times=common.sun_frame(idx, *place), max_delta=g.max_delta(), **kw)
    else:
        tempwork.drive(g, m)
