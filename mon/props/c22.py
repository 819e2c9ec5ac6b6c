"""Gap detection counts gaps and incomplete days are cut off cleanly."""
import numpy as np
import pandas as pd

from .. import common, ref
from ..snap import diff, digest

ID = 'C22'
N = dict(quick=3000, thorough=30000)
RULE = ('seeded time series of various steps with gaps, repeated and partial days per case; gap counts and remaining rows are compared '
        'with the reference; non-trivial if there is a gap or a row to cut; distinct by series and options')
REQUIRED = ['gaps', 'no gaps', 'many gaps', 'silent', 'limited output', 'complete', 'cut front', 'cut end', 'everything cut', 'shift', 'no shift', 'series', 'half hours',
            'daily step', 'last step', 'first step', 'single row', 'first row on wrong minute']


def gaps(ev, m):
    a = ev.args
    t = ref.ts_us(a['dataframe'].index)
    want = int(sum(1 for p, q in zip(t, t[1:]) if q - p != a['timestep'] * 10**6))
    m.check(ev.result == want, '%r gaps reported instead of %d' % (ev.result, want), index=a['dataframe'].index, step=a['timestep'])
    m.tag('gaps' if want else 'no gaps')
    if want > 10:
        m.tag('many gaps')
    if not a['verbose']:
        m.tag('silent')
    elif want > a['print_max']:
        m.tag('limited output')
    if a['timestep'] == 86400:
        m.tag('daily step')
    if len(t) == 1:
        m.tag('single row')
    if want and t[-1] - t[-2] != a['timestep'] * 10**6:
        m.tag('last step')
    if want and t[1] - t[0] != a['timestep'] * 10**6:
        m.tag('first step')
    m.judged(digest([t, a['timestep'], a['print_all'], a['print_max'], a['verbose']]), nontrivial=want > 0,
             sample=common.describe(rows=len(t), step=a['timestep'], gaps=want))


def cut(ev, m):
    a = ev.args
    df = a['dataframe']
    s = int(a['shift'])
    h, mi = np.asarray(df.index.hour), np.asarray(df.index.minute)
    f = [i for i in range(len(df)) if h[i] == s and mi[i] == 0]
    e = [i for i in range(len(df)) if h[i] == (s - 1) % 24 and mi[i] == 0]
    want = df.iloc[f[0]:e[-1] + 1] if f and e and e[-1] >= f[0] else df.iloc[0:0]
    r = ev.result
    m.check(len(r) == len(want), '%d rows remain instead of %d' % (len(r), len(want)), index=df.index, shift=s)
    d = diff(want, r, 'rows')
    m.check(d is None, 'remaining %s' % d)
    m.tag('shift' if s else 'no shift')
    if len(want) == len(df):
        m.tag('complete')
    elif len(want) == 0:
        m.tag('everything cut')
    else:
        if f[0]:
            m.tag('cut front')
        if e[-1] != len(df) - 1:
            m.tag('cut end')
    if isinstance(df, pd.Series):
        m.tag('series')
    if (mi == 30).any():
        m.tag('half hours')
    if len(df) and h[0] == s and mi[0] != 0:
        m.tag('first row on wrong minute')
    m.judged(digest([df, s]), nontrivial=len(want) != len(df), sample=common.describe(first=df.index[0], last=df.index[-1], rows=len(df), shift=s))


ORACLES = {'detect_gaps': gaps, 'drop_incomplete_days': cut}


def case(g, m):
    import melodist
    step = g.pick([3600, 3600, 86400, 1800, 300, 600])
    n = g.pick([1, 2, g.i(3, 30), g.i(30, 400)])
    idx = pd.date_range(g.start() + pd.Timedelta(seconds=g.pick([0, 3600 * g.i(0, 23), 60 * g.i(0, 1439)])), periods=n, freq='%ds' % step)
    x = g.u()
    keep = np.ones(n, bool)
    if x < 0.35:
        keep = g.r.random_sample(n) < g.pick([0.5, 0.9, 0.98])
    elif x < 0.5 and n > 3:
        keep[g.pick([1, n - 2])] = False
    elif x < 0.6:
        keep = np.arange(n) % 2 == 0
    if not keep.any():
        keep[0] = True
    df = pd.DataFrame(dict(temp=g.r.normal(280, 5, int(keep.sum())), precip=1.0), index=idx[keep])
    kw = {}
    if g.chance(0.5):
        kw['verbose'] = False
    if g.chance(0.3):
        kw['print_all'] = True
    if g.chance(0.3):
        kw['print_max'] = g.i(0, 8)
    melodist.util.detect_gaps(df, g.pick([step, step, step, 3600, 86400]), **kw)

    n = g.pick([g.i(1, 30), g.i(24, 120), 24 * g.i(1, 5)])
    f = g.pick(['h', 'h', '30min', '10min'])
    idx = pd.date_range(g.start() + pd.Timedelta(minutes=g.pick([0, 60 * g.i(0, 23), 30, 60 * g.i(0, 23) + 30])), periods=n * dict(h=1).get(f, 3), freq=f)
    df = pd.DataFrame(dict(temp=g.r.normal(280, 5, len(idx)), precip=1.0), index=idx)
    if g.chance(0.2) and n > 5:
        df = df.loc[g.r.random_sample(len(df)) < 0.85]
        if not len(df):
            return
    if g.chance(0.2):
        df = df.temp
    if g.chance(0.5):
        melodist.util.drop_incomplete_days(df, shift=g.i(0, 23))
    else:
        melodist.util.drop_incomplete_days(df)
