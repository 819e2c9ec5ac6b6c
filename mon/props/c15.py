"""Sun times describe sunrise, noon, sunset and day length of the place."""
import numpy as np
import pandas as pd

from .. import common, ref
from ..snap import digest

ID = 'C15'
N = dict(quick=3000, thorough=30000)
RULE = ('seeded place, time zone and days per case, through the function or a station; every day is compared with the reference; '
        'distinct by arguments')
REQUIRED = ['function', 'station', 'polar night', 'midnight sun', 'wrapped sunrise', 'wrapped sunset', 'date line', 'leap day', 'south',
            'fractional zone', 'whole year']


def judge(m, days, lon, lat, tz, r, where):
    want = ref.sun_times(days, lon, lat, tz)
    got = np.column_stack([np.asarray(r[c], float) for c in ('sunrise', 'sunnoon', 'sunset', 'daylength')])
    m.check(len(got) == len(days), 'number of days')
    m.check(not np.isnan(got).any(), 'undefined sun times')
    m.check((got[:, 3] >= -1e-9).all() and (got[:, 3] <= 24 + 1e-9).all(), 'day length outside 0-24 h')
    x = want[:, 6]
    ok = (np.abs(np.abs(x) - 1) > 1e-7)
    off = abs((lon - 15.0 * tz + 180.0) % 360.0)
    edge = min(off, 360 - off) < 1e-9  # exactly half way round the globe
    g, w = got[ok], want[ok]
    m.close(g[:, 3], w[:, 3], 'day length at %r' % ((lon, lat, tz),), rtol=0, atol=1e-6)
    d = g[:, 1] - w[:, 1]
    if edge:
        d = (d + 12) % 24 - 12
    m.close(d, np.zeros(len(d)), 'difference of solar noon at %r' % ((lon, lat, tz),), rtol=0, atol=1e-6)
    for k, name in ((0, 'sunrise'), (2, 'sunset')):
        d = g[:, k] - w[:, k]
        raw = w[:, 4 if k == 0 else 5]
        near = np.abs(raw - (0 if k == 0 else 24)) < 1e-6
        if edge:
            near[:] = True
        d = np.where(near, (d + 12) % 24 - 12, d)
        m.close(d, np.zeros(len(d)), 'difference of %s at %r' % (name, (lon, lat, tz)), rtol=0, atol=1e-6)
    m.tag(where)
    for c, t in (((x > 1).any(), 'polar night'), ((x < -1).any(), 'midnight sun'), ((want[:, 4] < 0).any(), 'wrapped sunrise'),
                 ((want[:, 5] > 24).any(), 'wrapped sunset'), (abs(lon - 15 * tz) > 180, 'date line'),
                 (any((t.month, t.day) == (2, 29) for t in days), 'leap day'), (lat < 0, 'south'), (tz != int(tz), 'fractional zone'),
                 (len(days) > 365, 'whole year')):
        if c:
            m.tag(t)
    m.judged(digest([lon, lat, tz, str(days[0]), len(days), str(days[-1])]), n=len(days),
             sample=common.describe(lon=lon, lat=lat, tz=tz, first=days[0], days=len(days), noon=float(got[0, 1]), length=float(got[0, 3])))


def function(ev, m):
    a = ev.args
    judge(m, ref.day_list(pd.DatetimeIndex(a['dates'])), float(a['lon']), float(a['lat']), float(a['time_zone']), ev.result, 'function')


def station(ev, m):
    s = ev.after
    judge(m, ref.day_list(s.data_daily.index), float(s.lon), float(s.lat), float(s.timezone), s.sun_times, 'station')


ORACLES = {'get_sun_times': function, 'Station.calc_sun_times': station}


def case(g, m):
    import melodist
    lon, lat, tz = g.place()
    if g.chance(0.1):  # stations across the date line
        lon, tz = g.pick([(g.u(-180, -165), g.pick([12, 12.75, 13, 14])), (g.u(170, 180), g.pick([-12, -11]))])
    idx = g.days()
    if g.chance(0.3):
        idx = g.gappy(idx)
    if g.chance(0.7):
        melodist.util.get_sun_times(idx, lon, lat, tz)
    else:
        s = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=pd.DataFrame(dict(precip=0.0), index=idx))
        s.calc_sun_times()
        with m.silent():
            r = s.sun_times
        m.check(len(r) == len(s.data_daily), 'sun times of the station')
