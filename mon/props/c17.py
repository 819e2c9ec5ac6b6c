"""A daily value influences only its own day and its direct neighbours."""
import numpy as np
import pandas as pd

from .. import common, ref
from ..snap import digest
from .c01 import master

ID = 'C17'
N = dict(quick=1500, thorough=15000)
RULE = ('pairs of runs of the deterministic methods on seeded daily records that differ in one daily value (changed, made missing or '
        'whole day removed); every hour outside the allowed days is compared; non-trivial if the runs differ at all; distinct by record, '
        'change and methods')
REQUIRED = ['changed', 'blanked', 'removed', 'function', 'station', 'temp', 'hum', 'wind', 'glob', 'precip', 'reaches neighbour',
            'first day', 'last day', 'long', 'polar'] + list(common.HUM) + list(common.TEMP) + ['pot_rad', 'pot_rad_via_ssd', 'mean_course', 'cosine',
                                                                                      'masterstation']


def configure(g, idx, place):
    return dict(
        temp=dict(method=g.pick(list(common.TEMP)), min_max_time=g.pick(list(common.WHEN)), mod_nighttime=g.chance(0.3)),
        hum=dict(method=g.pick(list(common.HUM)), preserve_daily_mean=g.chance(0.4)),
        wind=dict(method=g.pick(['equal', 'cosine'])),
        glob=dict(method=g.pick(['pot_rad', 'pot_rad_via_ssd', 'mean_course'])),
        precip=dict(method=g.pick(['equal', 'masterstation'])),
        place=place, delta=g.max_delta(), course=g.course(), gcourse=g.course(normalised=False), mhpm=g.mhpm(),
        ang=g.monthly(['a', 'b'], [(0.1, 0.4), (0.3, 0.8)]), wstat=dict(a=g.u(-0.5, 0.5), b=g.u(0.7, 1.2), t_shift=g.u(0, 24)),
        hstat=dict(a0=g.u(-5, 5), a1=g.u(0.95, 1.03), kr=g.pick([6, 12])), master=master(g, idx), station=g.chance(0.5))


def run(df, c):
    """Hourly results of all variables as {name: Series}."""
    import melodist
    if c['station']:
        s = melodist.Station(lon=c['place'][0], lat=c['place'][1], timezone=c['place'][2], data_daily=df.copy())
        st = s.statistics
        st.wind.update(**c['wstat'])
        st.hum.update(month_hour_precip_mean=c['mhpm'], **c['hstat'])
        st.temp.update(max_delta=c['delta'], mean_course=c['course'])
        st.glob.update(angstroem=c['ang'], mean_course=c['gcourse'])
        s.disaggregate_temperature(**c['temp'])
        s.disaggregate_humidity(**c['hum'])
        s.disaggregate_wind(**c['wind'])
        s.disaggregate_radiation(**c['glob'])
        s.disaggregate_precipitation(master_precip=c['master'], **c['precip'])
        return {k: s.data_disagg[k] for k in ('temp', 'hum', 'wind', 'glob', 'precip')}
    sun = common.sun_frame(df.index, *c['place'])
    t = melodist.disaggregate_temperature(df, max_delta=c['delta'], mean_course=c['course'], sun_times=sun, **c['temp'])
    pot = melodist.potential_radiation(t.index, *c['place'])
    w = melodist.disaggregate_wind(df.wind, **dict(c['wstat'], **c['wind']))
    if c['precip']['method'] == 'equal':
        p = melodist.disagg_prec(df, 'equal')
    else:
        p = melodist.precip_master_station(df.precip, c['master'], 'uniform')
    return dict(temp=t, hum=melodist.disaggregate_humidity(df, temp=t, month_hour_precip_mean=c['mhpm'], **dict(c['hstat'], **c['hum'])),
                wind=pd.Series(np.asarray(w, float), index=t.index),
                glob=melodist.disaggregate_radiation(df, sun_times=sun, pot_rad=pot, angstr_a=c['ang'].a, angstr_b=c['ang'].b,
                                                     mean_course=c['gcourse'], **c['glob']),
                precip=p)


def change(g, df):
    """(changed frame, day, column or None, kind)."""
    k = g.pick([0, len(df) - 1, g.i(0, len(df) - 1), g.i(0, len(df) - 1), g.i(0, len(df) - 1)])
    day = df.index[k]
    x = g.u()
    if x < 0.15 and len(df) > 2:
        return df.drop(index=day), day, None, 'removed'
    d = df.copy()
    col = g.pick(['temp', 'tmin', 'tmax', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'hum_min', 'hum_max', 'wind', 'ssd'])
    d[col] = d[col].astype(float)
    if x < 0.55:
        d.loc[day, col] = np.nan
        return d, day, col, 'blanked'
    v = d.loc[day, col]
    if np.isnan(v):
        v = 275.0 if col in ('temp', 'tmin', 'tmax') else 5.0
    e = g.u(0.1, 9.0)
    d.loc[day, col] = v - e if col == 'tmin' else v + e if col in ('tmax', 'temp') else max(v * g.u(0, 1.8) + g.pick([0, 0.5]), 0)
    return d, day, col, 'changed'


def case(g, m):
    idx = g.days(n=g.i(210, 800)) if g.chance(0.012) else g.days(lo=2, hi=40)
    df = g.daily(idx, extras=False)
    polar = g.chance(0.12)
    place = g.place(polar=polar)
    cfg = configure(g, idx, place)
    if not cfg['station'] and g.chance(0.3) and len(idx) > 3:
        df = df.loc[g.gappy(idx, lo=2)]
    other, day, col, kind = change(g, df)
    a = run(df, cfg)
    b = run(other, cfg)
    one = pd.Timedelta(days=1)
    reach = [day]
    if col in ('tmin', 'tmax', None):
        k = list(df.index).index(day)  # neighbours in time and, in records with gaps, in the record
        reach = [day - one, day, day + one] + list(df.index[max(k - 1, 0):k + 2])
    skip = set(ref.day_list(pd.DatetimeIndex(reach)))
    any_diff = False
    for k in a:
        if polar and col in ('tmin', 'tmax', None) and k in ('temp', 'hum'):
            continue  # bridged over the whole polar night
        u, v = a[k], b[k]
        j = u.index.intersection(v.index)
        u, v = u.reindex(j), v.reindex(j)
        p, q = np.asarray(u, float), np.asarray(v, float)
        same = (np.isnan(p) & np.isnan(q)) | (np.abs(p - q) <= 1e-9 * (1 + np.abs(p)))
        days = np.array(ref.day_list(j), dtype=object)
        outside = np.array([t not in skip for t in days])
        bad = outside & ~same
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            m.fail('%s of %s on %s changed %s at %s: %r -> %r (%d hours)' % (kind, col, day.date(), k, j[i], p[i], q[i], int(bad.sum())),
                   methods={t: cfg[t] for t in ('temp', 'hum', 'wind', 'glob', 'precip')}, daily=df)
        any_diff |= bool((~same).any())
        if (~same & (days != day.date())).any():
            m.tag('reaches neighbour')
        m.tag(k)
        m.tag(cfg[k]['method'])
        m.evaluations += int(outside.sum())
    m.tag(kind)
    m.tag('station' if cfg['station'] else 'function')
    if polar:
        m.tag('polar')
    if day == df.index[0]:
        m.tag('first day')
    if day == df.index[-1]:
        m.tag('last day')
    if len(df) > 200:
        m.tag('long')
    m.judged(digest([df, str(day), col, kind, str(cfg['temp']), str(cfg['hum']), str(cfg['glob']), cfg['station']]), nontrivial=any_diff or kind == 'removed',
             n=0, sample=common.describe(days=len(df), day=day, column=col, kind=kind, station=cfg['station'],
                                         methods=[cfg[t]['method'] for t in ('temp', 'hum', 'wind', 'glob', 'precip')]))
