"""Vapour pressure and dew point follow the Magnus formulas over water and ice."""
import numpy as np
import pandas as pd

from .. import common, ref
from ..snap import digest

ID = 'C28'
N = dict(quick=6000, thorough=60000)
RULE = ('seeded arrays and series of temperatures (200-340 K, freezing point and its neighbours included) with scalar or elementwise humidity; '
        'compared elementwise with the closed formulas; distinct by arguments')
REQUIRED = ['vapour pressure', 'dew point', 'scalar humidity', 'elementwise humidity', 'array', 'series', 'freezing point', 'just below freezing',
            'water', 'ice', 'missing temperature', 'missing humidity', 'saturated', 'integer humidity', 'single value', 'empty side', 'two-dimensional', 'very dry']
NEAR = [273.15, np.nextafter(273.15, 0), np.nextafter(273.15, 400), 273.16, 273.0, 273.2, 273.1]


def kinds(m, t, h):
    m.tag('series' if isinstance(t, pd.Series) else 'array')
    t = np.asarray(t, float)
    if (t == 273.15).any():
        m.tag('freezing point')
    if (t == NEAR[1]).any():
        m.tag('just below freezing')
    w, i = bool((t >= 273.15).any()), bool((t < 273.15).any())
    if w:
        m.tag('water')
    if i:
        m.tag('ice')
    if w != i:
        m.tag('empty side')
    if np.isnan(t).any():
        m.tag('missing temperature')
    if t.ndim > 1:
        m.tag('two-dimensional')
    if t.size == 1:
        m.tag('single value')
    if np.ndim(h) and np.isnan(np.asarray(h, float)).any():
        m.tag('missing humidity')
    if np.asarray(h).dtype.kind == 'i':
        m.tag('integer humidity')


def args(ev):
    a = ev.args
    t, h = a['temp'], a['hum']
    tv = np.asarray(t, float)
    hv = np.broadcast_to(np.asarray(h, float), tv.shape)
    return t, h, tv, hv


def vapour(ev, m):
    t, h, tv, hv = args(ev)
    want = np.array([ref.saturation(x) * y / 100.0 for x, y in zip(tv.ravel(), hv.ravel())]).reshape(tv.shape)
    m.close(ev.result, want, 'vapour pressure', rtol=1e-10, atol=1e-14)
    m.tag('vapour pressure')
    m.tag('elementwise humidity' if np.ndim(h) else 'scalar humidity')
    kinds(m, t, h)
    m.judged(digest([ev.fn, tv, hv]), n=tv.size, sample=common.describe(call=ev.fn, temp=tv.ravel()[:4], hum=hv.ravel()[:4]))


def dew(ev, m):
    t, h, tv, hv = args(ev)
    got = np.asarray(ev.result, float)
    want = np.array([ref.dewpoint(x, y) for x, y in zip(tv.ravel(), hv.ravel())]).reshape(tv.shape)
    m.close(got, want, 'dew point', rtol=1e-10, atol=1e-8)
    with np.errstate(all='ignore'):
        full = (hv == 100) & ~np.isnan(tv)
        m.check((np.abs(got - tv)[full] <= 1e-8).all(), 'dew point differs from temperature at saturation')
        m.check((got[hv < 100] <= tv[hv < 100] + 1e-9)[~np.isnan(got[hv < 100])].all(), 'dew point above temperature')
    m.tag('very dry', int((hv < 0.1).any()))
    if full.any():
        m.tag('saturated')
    m.tag('dew point')
    kinds(m, t, h)
    m.judged(digest([ev.fn, tv, hv]), n=tv.size, sample=common.describe(call=ev.fn, temp=tv.ravel()[:4], hum=hv.ravel()[:4]))


ORACLES = {'vapor_pressure': vapour, 'dewpoint_temperature': dew}


def case(g, m):
    import melodist
    n = g.pick([1, 1, 2, 3, g.i(4, 30), 24, g.i(30, 400)])
    t = g.r.uniform(*g.pick([(200, 340), (263, 283), (273.16, 340), (200, 273.1), (272.9, 273.4)]), size=n)
    if g.chance(0.5):
        k = g.r.random_sample(n) < 0.3
        t[k] = g.r.choice(NEAR, k.sum())
    if g.chance(0.2):
        t = np.round(t, g.i(0, 2))
    h = g.r.uniform(*g.pick([(0.5, 100), (90, 110), (1, 20), (0.001, 1)]), size=n)
    if g.chance(0.3):
        h[g.r.random_sample(n) < 0.4] = 100.0
    if g.chance(0.15):
        h = np.maximum(np.round(h), 1.0)
    if g.chance(0.35):
        t[g.missing(n, 1.0)] = np.nan
    if g.chance(0.35):
        h[g.missing(n, 1.0)] = np.nan
    elif g.chance(0.15):
        h = np.maximum(np.round(h), 1).astype(int)
    if g.chance(0.5):
        idx = g.pick([pd.RangeIndex(n), pd.date_range(g.start(), periods=n, freq='h'), pd.Index(np.arange(n)[::-1]), pd.Index(g.r.permutation(n) + 5)])
        t, h = pd.Series(t, index=idx), pd.Series(h, index=idx)
    elif n % 2 == 0 and g.chance(0.3):
        t, h = t.reshape(2, -1), h.reshape(2, -1)
    u = melodist.util
    if g.chance(0.4):
        u.vapor_pressure(t, g.pick([100, 100.0, 0, 1, 50, 37.5, np.float64(80.0), 103, 0.0, 0.5, np.float64(0.01), float(g.r.uniform(0, 2)), float(g.r.uniform(0, 110))]))
    else:
        u.vapor_pressure(t, h)
    u.dewpoint_temperature(t, h)
    if g.chance(0.2):  # saturation
        u.dewpoint_temperature(t, h * 0 + 100.0)
