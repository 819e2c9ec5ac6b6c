"""The cascade splits every wet interval as its statistics prescribe."""
import math

import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import digest

ID = 'C02'
N = dict(quick=4000, thorough=40000)
RULE = ('one seeded daily series and probability table per case (sure outcomes, partly impossible outcomes, or all outcomes '
        'possible); every wet interval of every branching level is one evaluation; distinct by series, table and level count, '
        'non-trivial if wet')
REQUIRED = ['exact', 'support', 'frequency', 'hourly', 'level9', 'level10', 'level11', 'per level', 'one table', 'tie', 'gap',
            'starting', 'enclosed', 'ending', 'isolated', 'above', 'below', 'both wet']
POS = ('starting', 'enclosed', 'ending', 'isolated')


def branch(parent, child, stats, lv, levels, m, counts=None):
    """Checks the split of one level: dry stays dry, outcome possible, weights at class centres."""
    p01, p10, pxx, wxx, thr = ref.level_table(stats, lv, levels)
    pos = ref.positions(parent)
    c1, c2 = child[0::2], child[1::2]
    dry = pos < 0
    m.check((c1[dry] == 0).all() and (c2[dry] == 0).all(), 'level %d: dry interval became wet' % (lv + 1))
    wet = np.flatnonzero((pos >= 0) & (parent > 1e-280))
    seq = []
    for i in wet:
        v = parent[i]
        a = 1 if v > thr else 0
        b = pos[i]
        if v == thr:
            m.tag('tie')
        if c1[i] == 0 and c2[i] != 0:
            out = 0
            m.check(abs(c2[i] - v) <= 1e-12 * v, 'level %d: amount changed' % (lv + 1))
            prob = p01[a, b]
        elif c2[i] == 0 and c1[i] != 0:
            out = 1
            m.check(abs(c1[i] - v) <= 1e-12 * v, 'level %d: amount changed' % (lv + 1))
            prob = p10[a, b]
        else:
            w = c1[i] / v
            k = int(np.argmin([abs(w - c) for c in ref.CENTRES]))
            m.check(abs(w - ref.CENTRES[k]) <= 1e-9 and abs(c1[i] + c2[i] - v) <= 1e-12 * v,
                    'level %d: share %r of the first half is no class centre' % (lv + 1, w))
            out = 2 + k
            prob = 1 - p01[a, b] - p10[a, b] if wxx[k, a, b] > 0 else 0.0
            m.tag('both wet')
        m.check(prob > 1e-12, 'level %d: impossible outcome %d for a %s interval %s the threshold (interval %d, volume %r, threshold %r)'
                % (lv + 1, out, POS[b], 'above' if a else 'not above', i, v, thr))
        if counts is not None:
            counts.setdefault((lv, a, b), np.zeros(9))[out] += 1
            seq.append((1.0 if out == 0 else 0.0, p01[a, b]))
    for b in range(4):
        k = int((pos == b).sum())
        if k:
            m.tag(POS[b], k)
    m.tag('above', int((parent[wet] > thr).sum()))
    m.tag('below', int((parent[wet] <= thr).sum()))
    return len(wet), seq


def final(x, box, m, missing):
    """Finest intervals to hourly or 5-minute values."""
    n = len(x.daily)
    want = ref.hourly_from_boxes(box, n) if x.hourly else ref.five_minutes_from_boxes(box, n)
    want[missing] = np.nan
    want = want.ravel()
    s = int(x.shift)
    if s:
        w = np.full(want.shape, np.nan)
        if abs(s) < len(w):
            if s > 0:
                w[s:] = want[:-s]
            else:
                w[:s] = want[-s:]
        want = w
    tot = float(np.nansum(x.daily))
    m.close(x.result, want, 'sub-daily amounts', rtol=1e-9, atol=1e-12 * tot + 1e-300, index=x.result.index)


def kind_of(stats):
    t = stats if isinstance(stats, list) else [stats]
    sure = all(((s.p01 == 0) | (s.p01 == 1)).all() and ((s.p10 == 0) | (s.p10 == 1)).all() and ((s.wxx == 0) | (s.wxx == 1)).all()
               for s in t)
    return 'exact' if sure else 'support'


def oracle(ev, m):
    x = norm.precipitation(ev)
    if x.kind != 'cascade':
        return
    d = norm.values(x.daily)
    missing = np.isnan(d)
    d = np.where(missing, 0.0, d)
    kind = kind_of(x.stats)
    evals = 0
    boxes = None
    if kind == 'exact':
        want = ref.run_deterministic(d, x.stats, x.levels)
        if x.arrays is not None:
            for lv, w in enumerate(want):
                m.close(x.arrays[lv], w, 'level %d of the cascade' % (lv + 1), rtol=1e-9, atol=1e-12 * d.sum() + 1e-300)
        final(x, want[-1], m, missing)
        m.tag('exact')
        evals = int((d > 0).sum()) * x.levels
    if x.arrays is not None:
        counts = {} if m.freq is not None else None
        parent = d
        evals = 0
        seqs = []
        for lv in range(x.levels):
            child = norm.values(x.arrays[lv])
            m.check(len(child) == 2 * len(parent), 'level %d has %d intervals' % (lv + 1, len(child)))
            k, seq = branch(parent, child, x.stats, lv, x.levels, m, counts)
            seqs += seq
            evals += k
            parent = child
        boxes = parent
        final(x, boxes, m, missing)
        m.tag('support')
        if counts is not None:
            m.freq(x, counts, seqs)
    if x.arrays is None and kind != 'exact':
        return
    m.tag('hourly' if x.hourly else 'level%d' % x.levels)
    m.tag('per level' if isinstance(x.stats, list) else 'one table')
    i = x.daily.index
    if len(i) > 1 and (i[-1] - i[0]).days != len(i) - 1:
        m.tag('gap')
    m.judged(digest([x.daily, x.stats, x.levels, x.shift]), nontrivial=bool((d > 0).any()), n=max(evals, 1),
             sample=common.describe(levels=x.levels, table=kind, days=len(d), first=i[0], values=d[:6].tolist(),
                                    per_level=isinstance(x.stats, list)))


def frequencies(m):
    def f(x, counts, seqs):
        for (lv, a, b), c in counts.items():
            p01, p10, pxx, wxx, thr = ref.level_table(x.stats, lv, x.levels)
            n = c.sum()
            probs = [p01[a, b], p10[a, b]]
            for k, p in enumerate(probs):
                sd = math.sqrt(n * p * (1 - p))
                if sd * sd >= 30:
                    m.check(abs(c[k] - n * p) <= 7 * sd, 'level %d, %s, volume class %d: outcome %d drawn %d times of %d, probability %.3f'
                            % (lv + 1, POS[b], a, k, c[k], n, p))
                    m.tag('frequency')
            nx = c[2:].sum()
            for k in range(7):
                p = wxx[k, a, b]
                sd = math.sqrt(nx * p * (1 - p))
                if sd * sd >= 30:
                    m.check(abs(c[2 + k] - nx * p) <= 7 * sd, 'level %d, %s, volume class %d: weight class %d drawn %d times of %d, probability %.3f'
                            % (lv + 1, POS[b], a, k, c[2 + k], nx, p))
        e = np.array([o - p for o, p in seqs])
        v = np.array([p * (1 - p) for o, p in seqs])
        for lag in (1, 2):
            num = float((e[:-lag] * e[lag:]).sum())
            den = math.sqrt(float((v[:-lag] * v[lag:]).sum()))
            if den > 6:
                m.check(abs(num) <= 7 * den, 'outcomes of neighbouring intervals are not independent (%.1f sigma)' % (num / den))
    return f


ORACLES = {'disagg_prec_cascade': oracle, 'disagg_prec': oracle}


def case(g, m):
    import melodist
    m.freq = None
    x = g.u()
    if m.case % 40 == 7:  # frequencies over many intervals
        n = 500
        p = pd.Series(np.where(g.r.random_sample(n) < 0.8, g.r.gamma(1.0, 8, n), 0), index=g.days(n=n))
        per = g.chance(0.4)
        m.freq = frequencies(m)
        # weights of both volume classes must occur: thresholds decreasing with the level
        st = common.casc_stats(g, p, 5, kind='random', per_level=per)
        t = np.array([1.0, 2.0, 4.0, 8.0, 12.0]) * g.u(0.2, 1)
        for k in range(5):
            if per:
                st[k].threshold = np.array([t[k]])
            else:
                st.threshold = t
        melodist.disagg_prec_cascade(p, st, test=True)
        return
    five = x < 0.35
    level = g.pick([9, 9, 10, 11]) if five else 5
    idx = g.days(lo=2, hi=6 if five else 90)
    if g.chance(0.3):
        idx = g.gappy(idx, lo=2)
    p = pd.Series(g.precip(len(idx)), index=idx)
    kind = g.pick(['deterministic', 'deterministic', 'sparse'])
    st = common.casc_stats(g, p, level, kind=kind)
    sh = g.pick([0, 0, 0, 0, 5, -9])
    if five:
        kw = {} if level == 9 and g.chance(0.5) else dict(level=level)
        melodist.disagg_prec_cascade(p, st, hourly=False, test=kind == 'sparse' or g.chance(0.5), shift=sh, **kw)
    else:
        if kind == 'deterministic' and g.chance(0.3):
            melodist.disagg_prec(p, method='cascade', cascade_options=st, shift=sh)
        else:
            melodist.disagg_prec_cascade(p, st, test=kind == 'sparse' or g.chance(0.5), shift=sh)
