"""Polar-night temperatures are bridged linearly between the daily extremes."""
import numpy as np

from .. import common, norm, ref, tempwork
from ..snap import digest

ID = 'C08'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded complete daily temperatures at high latitudes per case; the whole hourly series is compared with the reference; '
        'non-trivial if polar night occurs; distinct by data and options')
REQUIRED = ['start dark', 'end dark', 'into night', 'out of night', 'all dark', 'warming', 'cooling', 'station', 'function', 'sine_mean',
            'sine_min_max', 'south', 'several nights'] + list(common.WHEN)


def oracle(ev, m):
    p = tempwork.prepare(ev)
    x = p.x
    if not p.sine or not p.dark.any():
        return
    if np.isnan(p.tmin).any() or np.isnan(p.tmax).any() or (x.method == 'sine_mean' and np.isnan(p.temp).any()):
        return
    if (p.days[-1] - p.days[0]).days != p.n - 1:
        return
    light = ~p.dark
    if not ((p.lo[light] >= 0) & (p.hi[light] <= 23) & (p.lo[light] < p.hi[light])).all():
        return
    m.check(p.v is not None, 'wrong number of hourly values')
    want = ref.sine(p.days, p.tmin, p.tmax, p.temp, p.lo, p.hi, x.method, x.night and x.method != 'sine_mean')
    want = ref.polar(p.days, want, p.tmin, p.tmax, p.lo, p.hi, p.dark)
    m.close(p.v, want, 'hourly course with polar night (%s, %s)' % (x.method, x.when), rtol=0, atol=1e-7, index=x.result.index,
            daily=x.daily, dark=p.dark.tolist())
    d = p.dark
    if d[0]:
        m.tag('start dark')
    if d[-1]:
        m.tag('end dark')
    if d.all():
        m.tag('all dark')
    if (~d[:-1] & d[1:]).any():
        m.tag('into night')
    if (d[:-1] & ~d[1:]).any():
        m.tag('out of night')
    if (d[:-1] & ~d[1:]).sum() > 1:
        m.tag('several nights')
    avg = (p.tmin + p.tmax) / 2
    dd = np.diff(avg)
    if (dd[d[1:]] > 0).any():
        m.tag('warming')
    if (dd[d[1:]] < 0).any():
        m.tag('cooling')
    if p.days[0].month in (5, 6, 7):
        m.tag('south')
    m.tag(x.method)
    m.tag(x.when)
    m.tag('station' if norm.is_station(ev) else 'function')
    m.judged(digest([x.daily, x.sun, x.method, x.when, x.night, x.delta]), n=int(d.sum()),
             sample=common.describe(method=x.method, when=x.when, first=p.days[0], days=p.n, dark=int(d.sum()),
                                    tmin=p.tmin[:3].tolist(), tmax=p.tmax[:3].tolist()))


ORACLES = {'disaggregate_temperature': oracle, 'Station.disaggregate_temperature': oracle}


def case(g, m):
    tempwork.drive(g, m, polar=True, n=g.pick([1, 2, 3]) if g.chance(0.15) else g.i(400, 1100) if g.chance(0.02) else None, methods=('sine', 'sine_min_max', 'sine_mean'))
