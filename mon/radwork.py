"""Workload and preparation shared by the radiation properties."""
import datetime

import numpy as np
import pandas as pd

from . import common, norm, ref


class Prep:
    pass


def prepare(ev):
    """Daily radiation expected by the method, shape and hourly expectation before cutting."""
    x = norm.radiation(ev)
    p = Prep()
    p.x = x
    p.days = ref.day_list(x.daily.index)
    p.n = len(p.days)
    p.v = norm.grid(x.result, p.n)
    p.shape = norm.radiation_shape(x)
    pot = p.shape.mean(axis=1)
    p.clear = np.ones(p.n, bool)  # days that can be judged
    if x.method != 'mean_course' and x.pot is None:
        # sun grazing the horizon: rounding decides about potential radiation
        stamps = [datetime.datetime(d.year, d.month, d.day, h) for d in p.days for h in range(24)]
        cz = ref.potential_radiation(stamps, *x.place)[:, 2].reshape(p.n, 24).max(axis=1)
        p.clear &= np.abs(cz) > 1e-6
    c = ref.cols(x.daily, ('glob', 'ssd', 'tmin', 'tmax'))
    if x.method in ('pot_rad', 'mean_course'):
        p.daily = c['glob']
    elif x.method == 'pot_rad_via_ssd':
        length = norm.values(x.sun.daylength)
        a, b = norm.monthly(x.aa), norm.monthly(x.ab)
        p.daily = np.array([(a(d.month) + b(d.month) * s / n) * q if n > 0 else (0.0 if s == s else np.nan)
                            for d, s, n, q in zip(p.days, c['ssd'], length, pot)])
        p.clear &= (length > 0) | ((pot == 0) & ~np.isnan(c['ssd']))
    else:
        p.daily = ref.bristow_campbell(p.days, c['tmin'], c['tmax'], pot, norm.monthly(x.ba), norm.monthly(x.bc))
    p.raw = ref.scale_radiation(p.shape, p.daily)
    return p


def cut(v, raw):
    """Expected values after setting small ones to zero (accepting either next to the limit)."""
    want = np.where(raw < 0.01, 0.0, raw)
    near = np.abs(raw - 0.01) < 1e-7
    return np.where(near & (v == 0), 0.0, np.where(near & (v != 0), raw, want))


def pot_hours(g, idx, place):
    """Potential radiation for all hours, partly of odd shape."""
    r = ref.potential_radiation([t.to_pydatetime() for t in g.hours(idx)], *place)
    v = r[:, 0] + r[:, 1]
    if g.chance(0.2):
        v = v * g.r.uniform(0.2, 1.0, len(v))
    if g.chance(0.1):
        v = v.reshape(-1, 24)
        v[g.r.random_sample(len(v)) < 0.3] = 0.0
        v = v.ravel()
    return pd.Series(v, index=g.hours(idx))


def params(g, kind):
    """Model parameters, constant or monthly."""
    ranges = dict(a=[(0.1, 0.4), (0.3, 0.8)], b=[(0.5, 0.9), (0.8, 2.8)])[kind]
    if g.chance(0.5):
        return [g.u(*r) for r in ranges]
    t = g.monthly(['x', 'y'], ranges)
    if g.chance(0.2):
        t = t.iloc[g.r.permutation(12)]
    return [t.x, t.y]


def drive(g, m, methods=common.RAD):
    import melodist
    idx = g.days(hi=800 if g.chance(0.04) else 60)
    place = g.place()
    if g.chance(0.15):
        place = g.place(polar=True)
        idx = idx.map(lambda t: t) if len(idx) > 400 else g.days(n=len(idx), start=pd.Timestamp(2015, g.pick([1, 6, 11, 12]), g.i(1, 28)))
    df = g.daily(idx)
    for _ in range(2):
        meth = g.pick(list(methods))
        if g.chance(0.45):
            s = common.station(g, df.copy(), place=place)
            kw = dict(method=meth)
            if g.chance(0.3) and meth != 'mean_course':
                kw['pot_rad'] = pot_hours(g, idx, place)
            s.statistics.glob.mean_course = g.course_of(s.data_daily.index, normalised=False)
            s.disaggregate_radiation(**kw)
        else:
            d = df
            if g.chance(0.3):
                d = df.loc[g.gappy(df.index)]
            kw = dict(method=meth)
            if meth == 'mean_course':
                kw['mean_course'] = g.course_of(d.index, normalised=g.chance(0.3))
            else:
                kw['pot_rad'] = pot_hours(g, d.index, place)
            if meth == 'pot_rad_via_ssd':
                kw['sun_times'] = common.sun_frame(d.index, *place)
                if g.chance(0.8):
                    kw['angstr_a'], kw['angstr_b'] = params(g, 'a')
            if meth == 'pot_rad_via_bc' and g.chance(0.8):
                kw['bristcamp_a'], kw['bristcamp_c'] = params(g, 'b')
            melodist.disaggregate_radiation(d, **kw)
    if g.chance(0.3) and 'pot_rad_via_ssd' in methods:
        d = df.loc[g.gappy(df.index)] if g.chance(0.3) else df
        sun = common.sun_frame(d.index, *place)
        with np.errstate(all='ignore'):
            pot = pd.Series(g.r.uniform(0, 400, len(d)), index=d.index)
            if g.chance(0.5):
                if (sun.daylength > 0).all():
                    melodist.angstroem(d.ssd, sun.daylength, pot, *params(g, 'a'))
            else:
                if g.chance(0.3):
                    more = pd.date_range(d.index[0] - pd.Timedelta(days=2), d.index[-1] + pd.Timedelta(days=2), freq='D')
                    pot = pd.Series(g.r.uniform(0, 400, len(more)), index=more)
                melodist.bristow_campbell(d.tmin, d.tmax, pot, *params(g, 'b'))
