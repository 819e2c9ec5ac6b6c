"""Radiation derived from sunshine or temperature range follows its model."""
import numpy as np
import pandas as pd

from .. import common, norm, radwork, ref
from ..snap import digest

ID = 'C13'
N = dict(quick=2000, thorough=20000)
RULE = ('seeded daily data, place and constant or monthly parameters per case; every hour of the disaggregation and every day of the '
        'models called directly is compared with the reference; non-trivial if some value is positive; distinct by data and parameters')
REQUIRED = ['pot_rad_via_ssd', 'pot_rad_via_bc', 'station', 'function', 'constant', 'monthly', 'direct sunshine model',
            'direct range model', 'negative range', 'dark day', 'gap', 'several months', 'missing', 'polar']


def disagg(ev, m):
    p = radwork.prepare(ev)
    x = p.x
    if x.method not in ('pot_rad_via_ssd', 'pot_rad_via_bc'):
        return
    m.check(p.v is not None, 'wrong number of hourly values')
    k = p.clear
    want = radwork.cut(p.v, p.raw)
    m.close(p.v[k], want[k], 'radiation (%s)' % x.method, rtol=1e-6, atol=1e-6, daily=x.daily, expected_daily=p.daily.tolist(),
            judged=[str(d) for d, o in zip(p.days, k) if o])
    m.tag(x.method)
    m.tag('station' if norm.is_station(ev) else 'function')
    bc = x.method == 'pot_rad_via_bc'
    m.tag('monthly' if isinstance(x.ba if bc else x.aa, pd.Series) else 'constant')
    if (p.shape[k].mean(axis=1) == 0).any():
        m.tag('dark day')
    if p.n > 1 and (p.days[-1] - p.days[0]).days != p.n - 1:
        m.tag('gap')
    if len({d.month for d in p.days}) > 1:
        m.tag('several months')
    if np.isnan(p.daily[k]).any():
        m.tag('missing')
    if x.place and abs(x.place[1]) > 66.6:
        m.tag('polar')
    m.judged(digest([x.daily, x.method, x.pot, x.place] + ([x.ba, x.bc] if bc else [x.aa, x.ab])), nontrivial=bool((p.daily[k] > 0).any()),
             n=int(k.sum()) * 24, sample=common.describe(method=x.method, place=x.place, first=p.days[0], days=p.n, daily=p.daily[:4].tolist()))


def sunshine(ev, m):
    a = ev.args
    days = ref.day_list(a['ssd'].index)
    want = ref.angstroem(days, norm.values(a['ssd']), norm.values(a['day_length']), norm.values(a['pot_rad_daily']),
                         norm.monthly(a['a']), norm.monthly(a['b']))
    m.close(norm.values(ev.result), want, 'sunshine model', rtol=1e-9)
    m.tag('direct sunshine model')
    m.judged(digest([a['ssd'], a['pot_rad_daily'], a['a'], a['b']]), nontrivial=bool((want > 0).any()), n=len(days))


def temprange(ev, m):
    a = ev.args
    days = ref.day_list(a['tmin'].index)
    pot = {d: v for d, v in zip(ref.day_list(a['pot_rad_daily'].index), norm.values(a['pot_rad_daily']))}
    lo, hi = norm.values(a['tmin']), norm.values(a['tmax'])
    want = ref.bristow_campbell(days, lo, hi, np.array([pot[d] for d in days]), norm.monthly(a['A']), norm.monthly(a['C']))
    m.close(norm.values(ev.result), want, 'temperature-range model', rtol=1e-9)
    if len(lo) > 1 and (hi[:-1] < (lo[:-1] + lo[1:]) / 2).any():
        m.tag('negative range')
    m.tag('direct range model')
    m.judged(digest([a['tmin'], a['tmax'], a['pot_rad_daily'], a['A'], a['C']]), nontrivial=bool((want > 0).any()), n=len(days))


ORACLES = {'disaggregate_radiation': disagg, 'Station.disaggregate_radiation': disagg, 'angstroem': sunshine, 'bristow_campbell': temprange}


def case(g, m):
    radwork.drive(g, m, methods=('pot_rad_via_ssd', 'pot_rad_via_bc'))
