"""Potential radiation agrees with the position of the sun."""
import math

import numpy as np
import pandas as pd

from .. import common, ref
from ..snap import digest

ID = 'C14'
N = dict(quick=2500, thorough=25000)
RULE = ('seeded place, time zone, instants (hours of days, arbitrary minutes, unsorted lists), slope and cloudiness per case; every '
        'instant is compared with the reference; non-trivial if the sun is up at some instant; distinct by arguments')
REQUIRED = ['flat', 'slope', 'cloud', 'clear', 'split', 'total', 'night', 'minutes', 'list', 'polar', 'leap day', 'zenith', 'overcast']


def oracle(ev, m):
    a = ev.args
    dates = pd.DatetimeIndex(a['dates'])
    slope, aspect, cloud = float(a['terrain_slope']), float(a['terrain_slope_azimuth']), float(a['cloud_fraction'])
    want = ref.potential_radiation([t.to_pydatetime() for t in dates], float(a['lon']), float(a['lat']), float(a['timezone']), slope, aspect, cloud)
    r = ev.result
    m.check(len(r) == len(dates), 'number of values')
    m.check((ref.ts_us(r.index) == ref.ts_us(dates)).all(), 'time stamps')
    cz = want[:, 2]
    ok = np.ones(len(dates), bool) if slope == 0 else np.abs(cz) > 1e-9
    atol = 1e-6 if slope == 0 else 1e-3
    if a['split']:
        got = np.column_stack([np.asarray(r['direct'], float), np.asarray(r['diffuse'], float)])
        m.check((got >= 0).all(), 'negative radiation')
        m.close(got[ok, 0], want[ok, 0], 'direct radiation', rtol=1e-9, atol=atol)
        m.close(got[ok, 1], want[ok, 1], 'diffuse radiation', rtol=1e-9, atol=atol)
        tot = got.sum(axis=1)
        m.tag('split')
    else:
        tot = np.asarray(r, float)
        m.check((tot >= 0).all(), 'negative radiation')
        m.close(tot[ok], want[ok, :2].sum(axis=1), 'total radiation', rtol=1e-9, atol=atol)
        m.tag('total')
    m.check((tot[cz < -1e-9] == 0).all(), 'radiation below the horizon')
    m.tag('slope' if slope else 'flat')
    m.tag('cloud' if cloud else 'clear')
    if cloud == 1:
        m.tag('overcast')
    if (cz < 0).any():
        m.tag('night')
    if (np.asarray(dates.minute) != 0).any():
        m.tag('minutes')
    if isinstance(a['dates'], list):
        m.tag('list')
    if abs(float(a['lat'])) > 66.6:
        m.tag('polar')
    if ((np.asarray(dates.month) == 2) & (np.asarray(dates.day) == 29)).any():
        m.tag('leap day')
    if (cz > 1 - 1e-9).any():
        m.tag('zenith')
    m.judged(digest([list(ref.ts_us(dates)), a['lon'], a['lat'], a['timezone'], slope, aspect, cloud, a['split']]),
             nontrivial=bool((cz > 0).any()), n=len(dates),
             sample=common.describe(first=dates[0], n=len(dates), lon=a['lon'], lat=a['lat'], tz=a['timezone'], slope=slope, aspect=aspect,
                                    cloud=cloud))


ORACLES = {'potential_radiation': oracle}


def case(g, m):
    import melodist
    lon, lat, tz = g.place()
    x = g.u()
    if x < 0.04:  # sun in the zenith
        n = g.i(1, 365)
        dec = 23.43697 * math.cos(2 * math.pi * (n - 173.0) / 365.25)
        lon, lat, tz = 15.0 * g.i(-5, 5), dec, 0
        tz = int(lon / 15)
        dates = [pd.Timestamp(2015, 1, 1) + pd.Timedelta(days=n - 1, hours=h) for h in range(24)]
    elif x < 0.6:
        dates = g.hours(g.days(hi=20))
    elif x < 0.8:
        dates = [g.start() + pd.Timedelta(minutes=g.i(0, 1439)) for _ in range(g.i(1, 60))]
        if g.chance(0.3):
            dates = pd.DatetimeIndex(dates)
    else:
        dates = pd.date_range(g.start() + pd.Timedelta(minutes=g.i(0, 1439)), periods=g.i(1, 300), freq=g.pick(['5min', '10min', '30min', '3h', 'h']))
    kw = {}
    if g.chance(0.4):
        kw.update(terrain_slope=g.pick([g.u(0, 1.5), g.u(0, 0.3), math.pi / 2]), terrain_slope_azimuth=g.u(-math.pi, math.pi))
    elif g.chance(0.1):
        kw.update(terrain_slope_azimuth=g.u(-math.pi, math.pi))
    if g.chance(0.4):
        kw.update(cloud_fraction=g.pick([g.u(), 1.0, 0.5, 1]))
    if g.chance(0.4):
        kw.update(split=True)
    melodist.potential_radiation(dates, lon, lat, tz, **kw)
