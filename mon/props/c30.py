"""A station's results reflect its current data, place and calibration."""
import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import diff, digest, index_seconds, snap
from .c01 import master
from .c19 import plain

ID = 'C30'
N = dict(quick=700, thorough=7000)
RULE = ('seeded histories of assigning data, place, time zone and statistics, editing them in place, calibrating and disaggregating; each stored '
        'result is compared with the function-level result for the state of that moment; distinct by operation and state')
NOTE = ('Function-level results are taken from the package itself (judged by the other checks); random methods are compared through cascade tables '
        'with sure outcomes only.')
REQUIRED = ['wind', 'temp', 'hum', 'glob', 'precip equal', 'precip cascade', 'precip masterstation', 'data reset results', 'data reset sun times',
            'lon changed', 'lat changed', 'timezone changed', 'statistics replaced', 'place after data', 'second data', 'calibrated by station',
            'statistics take place', 'edited data', 'user temperature', 'results kept', 'statistics edited', 'gaps completed', 'radiation calibrated',
            'calibrated wind', 'calibrated hum', 'calibrated precip', 'calibrated again', 'second observations', 'observations of same length']


class Live:
    """What the history says about the stations of the case."""
    stations = []


def owner(stat):
    for s in Live.stations:
        if s.statistics is stat:
            return s
    return None


def fresh(s, stat, method, args):
    """Function-level result for the present state (plain snapshot s)."""
    import melodist
    d = s.data_daily
    sun = None
    if None not in (s.lon, s.lat, s.timezone):
        sun = melodist.util.get_sun_times(d.index, s.lon, s.lat, s.timezone)
    if method == 'disaggregate_wind':
        return melodist.disaggregate_wind(d.wind, method=args['method'], **stat.wind)
    if method == 'disaggregate_temperature':
        return melodist.disaggregate_temperature(d, args['method'], args['min_max_time'], args['mod_nighttime'], stat.temp['max_delta'],
                                                 stat.temp['mean_course'], sun)
    if method == 'disaggregate_humidity':
        return melodist.disaggregate_humidity(d, args['method'], s.data_disagg.temp, preserve_daily_mean=args['preserve_daily_mean'], **stat.hum)
    if method == 'disaggregate_radiation':
        pot = args['pot_rad']
        if pot is None:
            pot = melodist.potential_radiation(melodist.util.hourly_index(d.index), s.lon, s.lat, s.timezone)
        g = stat.glob
        return melodist.disaggregate_radiation(d, sun, pot, args['method'], g['angstroem'].a, g['angstroem'].b, g['bristcamp'].a,
                                               g['bristcamp'].c, g['mean_course'])
    if args['method'] == 'equal':
        return melodist.disagg_prec(d, 'equal')
    if args['method'] == 'masterstation':
        return melodist.precip_master_station(d.precip, args['master_precip'], args['zerodiv'])
    out = pd.Series(np.nan, index=melodist.util.hourly_index(d.index))
    for mo, st in zip(stat.precip['months'], stat.precip['stats']):
        sub = d.precip[np.isin(np.asarray(d.index.month), list(mo))]
        if len(sub) > 1:
            r = melodist.disagg_prec(sub, 'cascade', cascade_options=live_casc(st))
            out.loc[r.index] = r
    k = args['shift']
    v = out.to_numpy()
    w = np.full(len(v), np.nan)
    if k > 0:
        w[k:] = v[:-k]
    elif k < 0:
        w[:k] = v[-k:]
    else:
        w[:] = v
    return pd.Series(w, index=out.index)


def live_casc(st):
    """Snapshots of cascade statistics as statistics again."""
    if isinstance(st, list):
        return [live_casc(x) for x in st]
    c = common.casc((st.p01, st.p10, st.pxx, st.wxx), st.threshold, st.percentile)
    return c


VAR = dict(disaggregate_wind='wind', disaggregate_temperature='temp', disaggregate_humidity='hum', disaggregate_radiation='glob',
           disaggregate_precipitation='precip')


def sun_ok(m, st, what):
    if st.data_daily is None or None in (st.lon, st.lat, st.timezone):
        return 0
    days = ref.day_list(st.data_daily.index)
    want = ref.sun_times(days, float(st.lon), float(st.lat), float(st.timezone))
    m.check(st.sun_times is not None, '%s: no sun times' % what)
    m.check(len(st.sun_times) == len(days) and (index_seconds(st.sun_times.index) == index_seconds(st.data_daily.index)).all(),
            '%s: sun times do not belong to the days of the data' % what)
    for i, c in enumerate(['sunrise', 'sunnoon', 'sunset', 'daylength']):
        if c in ('sunrise', 'sunset'):  # times next to midnight may be wrapped or not
            e = np.abs(norm.values(st.sun_times[c]) - want[:, i])
            m.check((np.minimum(e, np.abs(e - 24)) < 1e-4).all(), '%s: %s does not belong to the place' % (what, c))
        else:
            m.close(st.sun_times[c], want[:, i], '%s: %s does not belong to the place' % (what, c), rtol=0, atol=1e-4)
    return len(days)


def every(ev, m):
    if ev.exc is not None:
        return
    cls, _, op = ev.fn.partition('.')
    if cls == 'Station' and ev.before is not None and ev.after is not None:
        b, a = ev.before, ev.after
        n = sun_ok(m, a, ev.fn)
        if op in VAR:
            var = VAR[op]
            if ev.args['method'] != 'random':
                want = fresh(b, b.statistics, op, ev.args)
                m.close(a.data_disagg[var], norm.values(want), 'stored %s (%s)' % (var, ev.args['method']), rtol=1e-9, atol=1e-9,
                        index=a.data_disagg.index)
                n += len(want)
                m.tag(var if var != 'precip' else 'precip ' + ev.args['method'])
            for c in b.data_disagg.columns:
                if c != var:
                    t = diff(b.data_disagg[c], a.data_disagg[c], c)
                    m.check(t is None, '%s changed other results: %s' % (op, t))
                    if b.data_disagg[c].notna().any():
                        m.tag('results kept')
        elif op == 'data_daily=':
            m.check(a.data_disagg.isna().all().all(), 'hourly results of the previous data are left')
            want = ref.hour_steps(a.data_daily.index)
            m.check(len(want) == len(a.data_disagg) and (index_seconds(a.data_disagg.index) == want).all(), 'hourly results do not cover the days')
            n += len(want)
            if b.data_disagg is not None and b.data_disagg.notna().any().any():
                m.tag('data reset results')
            if b.sun_times is not None:
                m.tag('data reset sun times')
            if b.data_daily is not None:
                m.tag('second data')
            if len(a.data_daily) > len(ev.args['df']):
                m.tag('gaps completed')
        elif op in ('lon=', 'lat=', 'timezone='):
            k = op[:-1]
            if b.get(k) is not None and b.get(k) != a.get(k):
                m.tag(k + ' changed')
            m.check(a.get(k) == ev.args[k], '%s not taken over' % k)
            if b.data_daily is not None and b.get(k) is None:
                m.tag('place after data')
        if n:
            m.judged(digest([ev.fn, ev.args if op in VAR else None, a]), n=n, sample=common.describe(
                call=ev.fn, method=ev.args.get('method') if isinstance(ev.args, dict) else None, place=(a.lon, a.lat, a.timezone)))
    elif ev.fn == 'StationStatistics.data=':
        t = diff(ev.args['df'], ev.after.data, 'observations')
        m.check(t is None, 'assigned observations not taken over: %s' % t)
        if ev.before is not None and ev.before.data is not None:
            m.tag('second observations')
            m.tag('observations of same length', int(len(ev.before.data) == len(ev.args['df'])))
        m.judged(digest([ev.fn, ev.args['df']]))
    elif op in GROUP:
        import melodist
        s = owner(ev.recv)
        if s is None:
            return
        k = GROUP[op]
        other = melodist.StationStatistics(data=ev.before.data, lon=s.lon, lat=s.lat, timezone=s.timezone)
        getattr(other, op)(**ev.args)
        want, got = plain(snap(other).get(k)), plain(ev.after.get(k))
        if k == 'glob' and ev.args['data_daily'] is None:
            want, got = want['mean_course'], got['mean_course']
        same(m, want, got, 'calibrated %s parameters do not belong to the present observations and place' % k)
        if k == 'temp':
            m.tag('calibrated by station')
        if k == 'glob' and ev.args['data_daily'] is not None:
            m.tag('radiation calibrated')
        m.tag('calibrated ' + k)
        if ev.before.get(k) != 0 and plain(ev.before.get(k)) != plain(snap(melodist.StationStatistics()).get(k)):
            m.tag('calibrated again')
        m.judged(digest([ev.fn, ev.before, s.lon, s.lat, s.timezone]), n=24)


GROUP = dict(calc_temperature_stats='temp', calc_wind_stats='wind', calc_humidity_stats='hum', calc_radiation_stats='glob', calc_precipitation_stats='precip')


def same(m, want, got, what):
    if isinstance(want, dict) and isinstance(got, dict):
        m.check(set(want) == set(got), '%s: entries %s instead of %s' % (what, sorted(got)[:20], sorted(want)[:20]))
        for k in want:
            same(m, want[k], got[k], what)
    else:
        ok = want is got or (None not in (want, got) and (want != want and got != got or abs(want - got) <= 1e-6 * (1 + abs(want))))
        m.check(ok, '%s: %r instead of %r' % (what, got, want))


EVERY = every


def sure(g, s):
    """Seasonal cascade statistics with sure outcomes."""
    months = g.seasons()
    d = s.data_daily.precip.fillna(0.0) if s.data_daily is not None else np.array([1.0, 5.0])
    s.statistics.precip.update(months=months, stats=[common.casc_stats(g, d, kind='deterministic') for _ in months])


def new_data(g, old=None):
    if old is not None and g.chance(0.35):  # same days, other values
        idx = pd.date_range(old.index[0], periods=len(old), freq='D')
    else:
        idx = g.days(n=g.pick([g.i(2, 12), g.i(2, 40), g.i(60, 120)]), lo=2)
    df = g.daily(idx, missing=g.chance(0.6), zero_range=False)
    if g.chance(0.25):
        df = df.loc[g.gappy(idx, lo=2)]
    return df


def place_part(g, s):
    lon, lat, tz = safe_place(g)
    k = g.pick(['lon', 'lat', 'timezone', 'all', 'all'])
    if k == 'lat':
        s.lat = lat
    elif k == 'lon':
        s.lon = s.timezone * 15 + g.u(-15, 15)
    elif k == 'timezone':
        s.timezone = round(s.lon / 15) + g.pick([-1, 0, 1])
    else:
        order = list(g.r.permutation(3))
        for i in order:
            setattr(s, ('lon', 'lat', 'timezone')[i], (lon, lat, tz)[i])


def safe_place(g):
    lon = round(g.u(-150, 150), 3)
    lat = round(g.pick([g.u(-58, 58), g.u(-58, 58), g.u(62, 75)]), 3)
    return lon, lat, int(round(lon / 15)) + g.pick([0, 0, 1, -1])


def disaggregate(g, m, s):
    d = s.data_daily
    x = g.i(0, 9)
    if x <= 2:
        near = abs(s.lon - 15 * s.timezone) < 40
        s.disaggregate_temperature(g.pick(list(common.TEMP)), g.pick(list(common.WHEN)) if near else 'fix', mod_nighttime=g.chance(0.4))
    elif x <= 4:
        s.disaggregate_radiation(g.pick(list(common.RAD)))
    elif x == 5:
        s.disaggregate_wind(g.pick(list(common.WIND)))
    elif x <= 7:
        s.disaggregate_humidity(g.pick(list(common.HUM)), preserve_daily_mean=g.chance(0.3))
    else:
        k = g.pick(['equal', 'cascade', 'cascade', 'masterstation'])
        if k == 'cascade':
            s.disaggregate_precipitation('cascade', shift=g.pick([0, 0, 7, -3]))
        elif k == 'masterstation':
            s.disaggregate_precipitation(k, master_precip=master(g, d.index))
        else:
            s.disaggregate_precipitation(k)


def case(g, m):
    import melodist
    Live.stations = []
    lon, lat, tz = safe_place(g)
    df = new_data(g)
    if g.chance(0.35):  # place only after the data
        s = melodist.Station(data_daily=df) if g.chance(0.5) else melodist.Station(lon=lon, lat=lat, data_daily=df)
        Live.stations.append(s)
        s.lon, s.lat, s.timezone = lon, lat, tz
    else:
        s = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=df)
        Live.stations.append(s)
    common.calibrate(g, s)
    sure(g, s)
    for _ in range(g.i(4, 10)):
        x = g.u()
        if x < 0.55:
            disaggregate(g, m, s)
        elif x < 0.65:
            s.data_daily = new_data(g, s.data_daily)
            if g.chance(0.5):
                sure(g, s)
        elif x < 0.75:
            place_part(g, s)
        elif x < 0.82:
            with m.silent():
                other = melodist.StationStatistics(lon=g.pick([None, 11.0]), lat=g.pick([None, -33.0]), timezone=g.pick([None, 5]))
                if g.chance(0.5):
                    other.data = g.hourly(g.days(n=g.i(3, 8)), missing=False)
            s.statistics = other
            m.tag('statistics replaced')
            if other.data is not None:
                other.calc_temperature_stats()
                m.tag('statistics take place')
            common.calibrate(g, s)
            sure(g, s)
        elif x < 0.87:
            common.calibrate(g, s)
            sure(g, s)
            m.tag('statistics edited')
        elif x < 0.90:
            c = g.pick(['tmin', 'tmax', 'temp', 'precip', 'wind', 'hum', 'glob', 'ssd'])
            v = s.data_daily[c].astype(float)
            s.data_daily[c] = v + g.r.uniform(0, 0.2, len(v)) * (v != 0)
            m.tag('edited data')
        elif x < 0.92:
            s.data_disagg['temp'] = norm.values(common.hourly_temp(g, s.data_daily))
            m.tag('user temperature')
        else:
            old = s.statistics.data
            n = len(old) // 24 if old is not None and g.chance(0.5) else g.i(12, 20)
            s.statistics.data = g.hourly(g.days(n=n), missing=False)
            more = g.u()
            if more < 0.5:
                for _ in range(g.i(1, 3)):
                    k = g.pick(['wind', 'hum', 'precip', 'wind', 'hum'])
                    if k == 'wind':
                        s.statistics.calc_wind_stats()
                    elif k == 'hum':
                        s.statistics.calc_humidity_stats()
                    elif s.statistics.data.precip.max() > 0:
                        s.statistics.calc_precipitation_stats(avg_stats=g.chance(0.5), percentile=g.pick([50, 30]))
                common.calibrate(g, s)
                sure(g, s)
                continue
            if g.chance(0.5) or abs(s.lat) > 58:
                keep = s.statistics.temp.max_delta
                s.statistics.calc_temperature_stats()
                s.statistics.temp.max_delta = keep
                s.statistics.temp.mean_course = g.course()
            else:
                with m.silent():
                    idx = pd.DatetimeIndex(sorted({t.normalize() for t in s.statistics.data.index}))
                    d = g.daily(idx, missing=False, zero_range=False)
                    length = common.sun_frame(idx, s.lon, s.lat, s.timezone).daylength
                    d['ssd'] = length * g.r.uniform(0, 1, len(idx))
                s.statistics.calc_radiation_stats(d, length)
                common.calibrate(g, s)
                sure(g, s)
