"""Results cover exactly the sub-daily steps of the given days."""
import datetime

import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import digest
from .c01 import master

ID = 'C16'
N = dict(quick=1500, thorough=15000)
RULE = ('seeded daily records (complete or with days left out) through all disaggregation functions and stations; the time stamps of '
        'every result are compared with the list of steps of its days; distinct by days and operation')
STATION = ['Station.disaggregate_' + k for k in ('wind', 'temperature', 'humidity', 'radiation', 'precipitation')]
REQUIRED = STATION + ['disaggregate_wind', 'disaggregate_temperature', 'disaggregate_humidity', 'disaggregate_radiation', 'disagg_prec',
                      'disagg_prec_cascade', 'precip_master_station', 'distribute_equally', 'hourly_index', 'Station.data_daily=',
                      'Station.interpolate', 'prepare_interpolation_data', 'fmin_index', 'sub_level_index',
                      'gap', '5min', 'completed', 'leap day', 'year end', 'one day', 'regular gaps', 'kept mean with gaps']

HOUR = 3600 * 10**6


def stamps(m, index, want, what):
    got = ref.ts_us(index)
    if len(got) != len(want):
        m.fail('%s: %d steps instead of %d' % (what, len(got), len(want)), index=index)
    if not (got == want).all():
        i = int(np.flatnonzero(got != want)[0])
        m.fail('%s: step %d is %s instead of %s' % (what, i, index[i], datetime.datetime(1970, 1, 1) + datetime.timedelta(microseconds=int(want[i]))))


def seen(m, ev, days, extra=None):
    m.tag(ev.fn)
    d = ref.day_list(days)
    if len(d) == 1:
        m.tag('one day')
    gap = len(d) > 1 and (d[-1] - d[0]).days != len(d) - 1
    if gap:
        m.tag('gap')
        if len(d) > 2 and len({(b - a).days for a, b in zip(d, d[1:])}) == 1:
            m.tag('regular gaps')
    if any((t.month, t.day) == (2, 29) for t in d):
        m.tag('leap day')
    if d[0].year != d[-1].year:
        m.tag('year end')
    m.judged(digest([ev.fn, [t.toordinal() for t in d], extra]), sample=common.describe(call=ev.fn, first=d[0], last=d[-1], days=len(d)))
    return gap


def function(ev, m):
    a = ev.args
    first = next(iter(a.values()))
    days = first.index
    r = ev.result
    per = HOUR
    if ev.fn == 'disagg_prec_cascade':
        if a['test']:
            r = r[-1]
        if not a['hourly']:
            per = 5 * 60 * 10**6
            m.tag('5min')
    want = ref.steps(days, per)
    if isinstance(r, (pd.Series, pd.DataFrame)):
        stamps(m, r.index, want, ev.fn)
    else:
        m.check(np.size(r) == len(want), '%s: %d values instead of %d' % (ev.fn, np.size(r), len(want)))
    gap = seen(m, ev, days, [a.get('method'), per])
    if gap and a.get('preserve_daily_mean'):
        m.tag('kept mean with gaps')


def index_function(ev, m):
    a = ev.args
    days = a['daily_index']
    per = dict(hourly_index=HOUR, fmin_index=HOUR // 12).get(ev.fn)
    if per is None:
        per = ref.DAY_US // 2 ** a['level']
    d = days
    if a['fill_gaps']:
        d = pd.date_range(days.min(), days.max(), freq='D')
    stamps(m, ev.result, ref.steps(d, per), ev.fn)
    seen(m, ev, days, [a.get('level'), a['fill_gaps']])


def station(ev, m):
    want = ref.hour_steps(ev.before.data_daily.index)
    stamps(m, ev.after.data_disagg.index, want, ev.fn)
    seen(m, ev, ev.before.data_daily.index, ev.args.get('method'))


def interpolate(ev, m):
    stamps(m, ev.result.index, ref.hour_steps(ev.before.data_daily.index), ev.fn)
    seen(m, ev, ev.before.data_daily.index)


def assign(ev, m):
    given = ev.args['df']
    d = ref.day_list(given.index)
    if given.index.freq is None:
        n = (d[-1] - d[0]).days + 1
        full = [d[0] + datetime.timedelta(days=k) for k in range(n)]
    else:
        full = d
    have = ev.after.data_daily
    m.check(ref.day_list(have.index) == full, 'days of the station', given=given.index, have=have.index)
    at = {t: i for i, t in enumerate(full)}
    pos = [at[t] for t in d]
    absent = sorted(set(range(len(full))) - set(pos))
    m.check(list(have.columns) == list(given.columns), 'columns of the station')
    for c in given.columns:
        if given[c].dtype == object:
            continue
        m.close(norm.values(have[c])[pos], norm.values(given[c]), 'daily %s of the station' % c, rtol=0, atol=0)
        m.check(np.isnan(norm.values(have[c])[absent]).all(), 'absent day has a value')
    stamps(m, ev.after.data_disagg.index, ref.hour_steps(pd.DatetimeIndex([pd.Timestamp(t) for t in full])), 'hourly results of the station')
    if absent:
        m.tag('completed')
    seen(m, ev, given.index)


ORACLES = {k: station for k in STATION}
ORACLES.update({k: function for k in ('disaggregate_wind', 'disaggregate_temperature', 'disaggregate_humidity', 'disaggregate_radiation',
                                      'disagg_prec', 'disagg_prec_cascade', 'precip_master_station', 'distribute_equally',
                                      'prepare_interpolation_data')})
ORACLES.update({k: index_function for k in ('hourly_index', 'fmin_index', 'sub_level_index')})
ORACLES.update({'Station.interpolate': interpolate, 'Station.data_daily=': assign})


def case(g, m):
    import melodist
    idx = g.days(hi=800 if g.chance(0.02) else 45)
    if g.chance(0.4):
        idx = g.gappy(idx)
    df = g.daily(idx)
    place = g.place(polar=False)
    contiguous = (idx[-1] - idx[0]).days == len(idx) - 1
    x = g.u()
    if x < 0.4:
        s = common.station(g, df, place=place)
        s.disaggregate_wind(g.pick(list(common.WIND)))
        s.disaggregate_temperature(g.pick(list(common.TEMP)), g.pick(list(common.WHEN)), g.chance(0.3))
        s.disaggregate_humidity(g.pick(list(common.HUM)), g.chance(0.5))
        s.disaggregate_radiation(g.pick(list(common.RAD)))
        d = s.data_daily
        meth = g.pick(['equal', 'cascade', 'masterstation'])
        s.disaggregate_precipitation(meth, shift=g.pick([0, 0, 3, -5]), master_precip=master(g, d.index) if meth == 'masterstation' else None)
        hours = dict(zip(['tmin', 'temp', 'tmax'], sorted(g.r.choice(24, 3, replace=False))))
        s.interpolate({k: int(v) for k, v in hours.items()})
    elif x < 0.9:
        temp = common.hourly_temp(g, df)
        sun = common.sun_frame(idx, *place)
        pot = pd.Series(g.r.uniform(1, 600, len(temp)), index=temp.index)
        for op in g.r.permutation(9)[:3]:
            if op == 0:
                melodist.disaggregate_wind(df.wind, g.pick(list(common.WIND)), 0.3, 0.9, 14.0)
            elif op == 1:
                melodist.disaggregate_temperature(df, g.pick(list(common.TEMP)), g.pick(list(common.WHEN)), False, g.max_delta(), g.course(), sun)
            elif op == 2:
                melodist.disaggregate_humidity(df, g.pick(list(common.HUM)), temp, 1.0, 0.98, 12, g.mhpm(), g.chance(0.5))
            elif op == 3:
                melodist.disaggregate_radiation(df, sun, pot, g.pick(list(common.RAD)), mean_course=g.course(normalised=False))
            elif op == 4:
                melodist.disagg_prec(df, 'equal')
            elif op == 5 and len(df) > 1:
                melodist.disagg_prec(df.precip, 'cascade', cascade_options=common.casc_stats(g, df.precip), shift=g.pick([0, 2, -3]))
            elif op == 6 and len(df) > 1:
                hourly = g.chance(0.4)
                lev = g.pick([9, 10, 11])
                melodist.disagg_prec_cascade(df.precip, common.casc_stats(g, df.precip, levels=5 if hourly else lev), hourly=hourly, level=lev)
            elif op == 7:
                melodist.precip_master_station(df.precip, master(g, idx), g.pick(['uniform', 'zero']))
            elif op == 8:
                melodist.util.distribute_equally(g.pick([df.temp, df.wind, df.precip]), divide=g.chance(0.5))
    else:
        melodist.util.hourly_index(idx, g.chance(0.4))
        melodist.sub_level_index(idx, level=g.i(1, 11), fill_gaps=g.chance(0.4))
        melodist.fmin_index(idx, fill_gaps=g.chance(0.4))
        if contiguous:
            melodist.util.prepare_interpolation_data(df, dict(tmin=g.i(0, 9), temp=g.i(10, 15), tmax=g.i(16, 23)))
