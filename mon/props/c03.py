"""Cascade calibration reproduces the observed branching frequencies."""
import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..sample import SAMPLE
from ..snap import digest

ID = 'C03'
N = dict(quick=320, thorough=3200)
RULE = ('one seeded hourly or 5-minute record with one calibration call per case; every statistic of every level and season is '
        'compared; non-trivial if rain occurs; distinct by record and options')
REQUIRED = ['hourly', '5min', 'averaged', 'per level', 'seasons', 'fallback', 'observed', 'uniform weights', 'missing', 'aggregate',
            'station statistics', 'percentile', 'percentile with decimals']


def compare(m, st, want, what, threshold=True):
    for k in ('p01', 'p10', 'pxx', 'wxx'):
        m.close(getattr(st, k), want[k], '%s: %s' % (what, k), rtol=1e-9, atol=1e-12)
    if threshold:
        m.close(np.ravel(st.threshold), np.ravel(want['threshold']), '%s: threshold' % what, rtol=1e-9, atol=1e-300)
    m.close(st.p01 + st.p10 + st.pxx, np.ones((2, 4)), '%s: sum of branching probabilities' % what, rtol=0, atol=1e-9)
    m.close(st.wxx.sum(axis=0), np.ones((2, 4)), '%s: sum of weight probabilities' % what, rtol=0, atol=1e-9)


def level(fine, q, m):
    """Expected statistics of one aggregation, or None if ties make them a matter of rounding."""
    st, coarse = ref.calibrate_level(fine, q)
    if st is None:
        return None, coarse
    wet = np.sort(coarse[coarse > 0])
    x = (len(wet) - 1) * q / 100.0
    k = int(np.floor(x))
    same = k + 1 < len(wet) and wet[k] == wet[k + 1]
    near = (np.abs(coarse - st['threshold']) <= 1e-9 * st['threshold']).any()
    definite = q in (0, 25, 50, 75, 100) or same or not near
    if near:
        m.tag('tie')
    if not st['ok']:
        m.tag('fallback')
        for n in ('p01', 'p10', 'pxx', 'wxx'):
            st[n] = SAMPLE[n]
    else:
        m.tag('observed')
        if st['wnan']:
            m.tag('uniform weights')
    st['definite'] = definite
    return st, coarse


def season(v, levels, q, m):
    out = []
    for _ in range(levels):
        st, v = level(v, q, m)
        if st is None or len(v) < 2:
            return None
        out.append(st)
    return out


def average(lv):
    n = np.array([s['n'] for s in lv], float)
    w = n / n.sum()
    r = {k: sum(w[i] * lv[i][k] for i in range(len(lv))) for k in ('p01', 'p10', 'pxx', 'wxx')}
    r['threshold'] = np.array([s['threshold'] for s in lv])
    return r


def judge(obs, months, levels, avg, q, result, m):
    m.check(len(result) == len(months), 'one set of statistics per season expected')
    mo = np.asarray(obs.index.month)
    v = norm.values(obs['precip'])
    order = np.argsort(ref.ts_us(obs.index), kind='stable')
    if np.isnan(v).any():
        m.tag('missing')
    v = np.where(np.isnan(v), 0.0, v)
    for k, ms in enumerate(months):
        sel = order[np.isin(mo[order], [int(a) for a in ms])]
        lv = season(v[sel], levels, q, m)
        if lv is None:
            continue
        if not all(s['definite'] for s in lv):
            m.tag('ambiguous tie')
            continue
        st = result[k]
        what = 'season %s' % list(map(int, ms))
        if avg:
            m.check(not isinstance(st, list), 'averaged statistics expected')
            compare(m, st, average(lv), what)
            m.check(st.percentile == q, 'percentile not recorded')
        else:
            m.check(isinstance(st, list) and len(st) == levels, 'one set of statistics per level expected')
            for i in range(levels):
                compare(m, st[i], lv[i], '%s, level %d' % (what, i + 1))
                m.check(st[i].percentile == q, 'percentile not recorded')
    if len(months) > 1:
        m.tag('seasons')
    if q != 50:
        m.tag('percentile')
        if q != int(q):
            m.tag('percentile with decimals')
    m.tag('averaged' if avg else 'per level')
    m.judged(digest([obs['precip'], str(months), levels, avg, q]), nontrivial=bool((v > 0).any()), n=len(months) * levels,
             sample=common.describe(rows=len(v), first=obs.index[0], months=months, levels=levels, averaged=avg, percentile=q))


def build(ev, m):
    a = ev.args
    levels = 5 if a['hourly'] else a['level']
    months = a['months'] if a['months'] is not None else [list(range(1, 13))]
    judge(a['ObsData'], months, levels, a['avg_stats'], a['percentile'], ev.result, m)
    m.tag('hourly' if a['hourly'] else '5min')


def calc(ev, m):
    a = ev.args
    months = a['months'] if a['months'] is not None else [list(range(1, 13))]
    st = ev.after.precip
    judge(ev.before.data, months, 5, a['avg_stats'], a['percentile'], st['stats'], m)
    m.check([list(map(int, x)) for x in st['months']] == [list(map(int, x)) for x in months], 'season months not recorded')
    m.tag('station statistics')


def aggregate(ev, m):
    a = ev.args
    v = norm.values(a['vec_data']['precip'])
    st, coarse = level(v, a['percentile'], m)
    got, agg = ev.result
    m.close(agg['precip'], coarse, 'aggregated series', rtol=1e-12, atol=0)
    if st is None or not st['definite'] or len(coarse) < 2:
        return
    compare(m, got, st, 'aggregation')
    m.tag('aggregate')
    m.judged(digest([a['vec_data'], a['percentile']]), nontrivial=bool((v > 0).any()))


ORACLES = {'build_casc': build, 'aggregate_precipitation': aggregate, 'StationStatistics.calc_precipitation_stats': calc}


def usable(obs, months, levels):
    """Every season has rain and at least two intervals at the coarsest level."""
    mo = np.asarray(obs.index.month)
    v = np.where(np.isnan(norm.values(obs.precip)), 0, norm.values(obs.precip))
    out = []
    for ms in months:
        sel = v[np.isin(mo, [int(a) for a in ms])]
        k = len(sel)
        good = k // 2**levels >= 2
        c = sel
        for _ in range(levels if good else 0):
            c = c[:len(c) // 2 * 2].reshape(-1, 2).sum(axis=1)
            good = good and (c > 0).any()
        if good:
            out.append(ms)
    return out


def case(g, m):
    import melodist
    q = g.pick([50, 50, 50, 25, 75, 60, 90, 10, 66.7, round(g.u(20, 80), 2)])
    avg = g.chance(0.5)
    x = g.u()
    if x < 0.12:  # 5 minutes
        level_ = g.pick([9, 10, 11])
        n = {9: g.i(6, 20), 10: g.i(10, 25), 11: g.i(18, 32)}[level_]
        start = g.start()
        idx = pd.date_range(start, periods=n * 288, freq='5min')
        obs = pd.DataFrame(dict(precip=g.rain(len(idx), p_wet=g.pick([0.02, 0.1]))), index=idx)
        if g.chance(0.3):
            obs.loc[g.r.random_sample(len(idx)) < 0.05, 'precip'] = np.nan
        if usable(obs, [range(1, 13)], level_):
            kw = {} if level_ == 9 and g.chance(0.5) else dict(level=level_)
            melodist.build_casc(obs, hourly=False, avg_stats=avg, percentile=q, **kw)
        return
    n = g.pick([g.i(8, 40), g.i(41, 150), g.i(150, 450)])
    idx = g.days(n=n)
    obs = g.hourly(idx, rain=g.rain(n * 24, p_wet=g.pick([0.03, 0.1, 0.2, 0.4])))
    if x < 0.25:
        v = obs[['precip']].fillna(0)
        if g.chance(0.3):
            v = v.iloc[:-g.i(1, 7)]
        if v.precip.sum() > 0:
            melodist.aggregate_precipitation(v, percentile=q)
        return
    months = usable(obs, g.seasons(), 5)
    if not months:
        return
    if g.chance(0.4):
        s = melodist.StationStatistics(data=obs)
        s.calc_precipitation_stats(months=months, avg_stats=avg, percentile=q)
    else:
        kw = dict(months=months)
        if len(months) == 1 and len(months[0]) == 12 and g.chance(0.7):
            kw = {}
        melodist.build_casc(obs, avg_stats=avg, percentile=q, **kw)
