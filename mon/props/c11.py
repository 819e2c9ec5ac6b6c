"""Disaggregated wind speed scales with the daily mean as the method states."""
import math

import numpy as np
import pandas as pd

from .. import common, norm
from ..snap import digest

ID = 'C11'
N = dict(quick=1500, thorough=15000)
RULE = ('one seeded daily wind series per case, all methods through the function and the station; non-trivial if some '
        'daily value is positive; distinct by series, method and parameters')
REQUIRED = ['equal', 'cosine', 'random', 'station', 'missing day', 'zero day', 'random sample', 'gap']


def oracle(ev, m):
    x = norm.wind(ev)
    d = norm.values(x.daily)
    n = len(d)
    v = norm.grid(x.result, n)
    m.check(v is not None, 'wrong number of hourly values')
    if x.method == 'equal':
        want = np.repeat(d[:, None], 24, axis=1)
        m.close(v, want, 'equal wind', rtol=1e-12, atol=0)
    elif x.method == 'cosine':
        c = np.array([x.b + x.a * math.cos(math.pi * (h - x.t_shift) / 12) for h in range(24)])
        m.close(v, d[:, None] * c[None, :], 'cosine wind', rtol=1e-9, atol=1e-9)
    else:
        m.close(np.isnan(v), np.isnan(d)[:, None].repeat(24, 1), 'missing random wind')
        ok = ~np.isnan(d)
        m.check((v[ok] >= 0).all(), 'negative wind')
        m.check((v[ok & (d == 0)] == 0).all(), 'wind on a calm day')
        r = (v[ok & (d > 0)] / d[ok & (d > 0)][:, None]).ravel()
        if len(r) >= 2000:
            # factors must be independent draws of (standard exponential)**0.3
            u = np.sort(np.exp(-r ** (1 / 0.3)))
            k = len(u)
            e = np.arange(1, k + 1) / k
            ks = max(np.abs(u - e).max(), np.abs(u - e + 1.0 / k).max())
            m.check(ks <= 3.5 / math.sqrt(k), 'factors do not follow the prescribed distribution (KS %.4f, n=%d)' % (ks, k))
            m.check(len(np.unique(r)) > 0.99 * k, 'random factors repeat')
            z = np.exp(-r ** (1 / 0.3)) - 0.5
            for lag in (1, 24):
                c = float((z[:-lag] * z[lag:]).mean() * 12)
                m.check(abs(c) <= 7 / math.sqrt(k), 'random factors are correlated (lag %d: %.3f)' % (lag, c))
            m.tag('random sample')
    m.tag(x.method)
    if norm.is_station(ev):
        m.tag('station')
    if np.isnan(d).any():
        m.tag('missing day')
    if (d == 0).any():
        m.tag('zero day')
    i = x.daily.index
    if n > 1 and (i[-1] - i[0]).days != n - 1:
        m.tag('gap')
    m.judged(digest([ev.fn, x.method, x.daily, x.a, x.b, x.t_shift]), nontrivial=bool((d > 0).any()), n=n,
             sample=common.describe(call=ev.fn, method=x.method, first=i[0], days=n, values=d[:6].tolist(), a=x.a, b=x.b, t_shift=x.t_shift))


ORACLES = {'disaggregate_wind': oracle, 'Station.disaggregate_wind': oracle}


def case(g, m):
    import melodist
    idx = g.days(n=g.i(100, 300) if g.chance(0.1) else None, hi=400)
    df = g.daily(idx)
    s = common.station(g, df)
    for meth in common.WIND:
        s.disaggregate_wind(method=meth)
    s.disaggregate_wind()
    w = df.wind
    if g.chance(0.4):
        w = w.loc[g.gappy(idx)]
    for meth in common.WIND:
        r = g.pick([1, 1, 3])
        kw = dict(a=g.u(-r, r), b=g.u(0, 2 * r), t_shift=g.u(-12, 36)) if meth == 'cosine' or g.chance(0.3) else {}
        if meth == 'cosine' and g.chance(0.1):
            kw = dict(a=0, b=g.pick([1, g.u(0.5, 1.4)]), t_shift=g.pick([0, g.u(0, 24)]))
        melodist.disaggregate_wind(w, method=meth, **kw)
