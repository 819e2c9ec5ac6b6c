"""Master-station disaggregation transfers the master's hourly pattern."""
import numpy as np
import pandas as pd

from .. import common, norm
from ..snap import digest
from .c01 import master

ID = 'C05'
N = dict(quick=2000, thorough=20000)
RULE = ('one seeded daily series and master record per case; every hour is compared; non-trivial if the master recorded rain on a wet '
        'day; distinct by both series and option')
REQUIRED = ['pattern', 'uniform', 'zero option', 'missing master hour', 'missing master day', 'missing day', 'station', 'gap',
            'longer master', 'few master hours']


def oracle(ev, m):
    x = norm.precipitation(ev)
    if x.kind != 'masterstation':
        return
    d = norm.values(x.daily)
    idx = x.daily.index
    mh = {}
    for t, v in zip(x.master.index, norm.values(x.master)):
        mh[(t.date(), t.hour)] = v
    v = norm.grid(x.result, len(d))
    m.check(v is not None, 'wrong number of hours')
    want = np.full((len(d), 24), np.nan)
    pat = False
    for i, t in enumerate(idx):
        h = np.array([mh[(t.date(), k)] for k in range(24)])
        s = np.nansum(h)
        if s != 0:
            want[i] = h / s * d[i]
            if not np.isnan(d[i]):
                pat = pat or d[i] > 0
                m.tag('pattern')
            if np.isnan(h).sum() > 12:
                m.tag('few master hours')
            if np.isnan(h).any():
                m.tag('missing master hour')
        elif x.zerodiv == 'uniform':
            want[i] = d[i] / 24
            m.tag('uniform')
        else:
            want[i] = 0.0
            m.tag('zero option')
        if np.isnan(h).all():
            m.tag('missing master day')
    if np.isnan(d).any():
        m.tag('missing day')
        # a missing total leaves the day missing; only the non-uniform option may put zeros there
        k = np.isnan(d)
        if x.zerodiv != 'uniform':
            want[k] = np.where(want[k] == 0, v[k], want[k])
    m.close(v, want, 'hourly amounts', rtol=1e-9, atol=1e-300, index=x.result.index, daily=x.daily, master=x.master)
    if norm.is_station(ev):
        m.tag('station')
    if len(idx) > 1 and (idx[-1] - idx[0]).days != len(idx) - 1:
        m.tag('gap')
    if len(x.master) > 24 * len(d):
        m.tag('longer master')
    m.judged(digest([x.daily, x.master, x.zerodiv]), nontrivial=pat, n=len(d),
             sample=common.describe(call=ev.fn, first=idx[0], days=len(d), daily=d[:4].tolist(), zerodiv=x.zerodiv))


ORACLES = {'precip_master_station': oracle, 'disagg_prec': oracle, 'Station.disaggregate_precipitation': oracle}


def case(g, m):
    import melodist
    idx = g.days(hi=60)
    if g.chance(0.4):
        idx = g.gappy(idx)
    p = pd.Series(g.precip(len(idx)), index=idx)
    h = master(g, idx)
    f = g.pick(['uniform', 'uniform', 'zero'])
    x = g.u()
    if x < 0.35:
        melodist.precip_master_station(p, h, f)
    elif x < 0.6:
        melodist.disagg_prec(p, method='masterstation', hourly_data_obs=h, zerodiv=f)
    else:
        df = pd.DataFrame(dict(precip=p))
        s = melodist.Station(lon=10, lat=50, timezone=1, data_daily=df)
        h = master(g, s.data_daily.index)
        if g.chance(0.5):
            s.disaggregate_precipitation(method='masterstation', zerodiv=f, master_precip=h)
        else:
            s.disaggregate_precipitation(method='masterstation', master_precip=h)
