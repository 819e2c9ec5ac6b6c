"""Copies of stations and statistics are equal, usable and independent."""
import copy
import pickle

import numpy as np

from .. import common, gen
from ..core import CaseAbort
from ..snap import STATS, diff, digest, snap
from . import c30

ID = 'C31'
N = dict(quick=500, thorough=6000)
RULE = ('a station in a seeded state is deep-copied or restored from a pickle, then random operations are applied to both with the same arguments '
        'and random state, one after the other; after each the public states are compared; distinct by state and operation')
REQUIRED = ['deepcopy', 'pickle', 'copy of a copy', 'statistics', 'cascade equal', 'cascade different', 'disaggregated', 'precipitation calibrated',
            'parameters edited', 'place', 'new data', 'edited in place', 'calibrated', 'tables edited', 'original first', 'copy first', 'per level']


def duplicate(g, m, x):
    k = g.i(0, 5)
    if k <= 2:
        m.tag('deepcopy')
        return copy.deepcopy(x)
    m.tag('pickle')
    return pickle.loads(pickle.dumps(x, protocol=g.pick([2, 3, 4, 5, pickle.HIGHEST_PROTOCOL])))


def access(m, st, what):
    for n in STATS:
        b = getattr(st, n)
        for k in b:
            m.check(getattr(b, k) is b[k], '%s: %s.%s and its entry differ' % (what, n, k))


def op_disaggregate(g, m, s):
    c30.disaggregate(g, m, s)
    m.tag('disaggregated')


def op_parameters(g, m, s):
    st = s.statistics
    b, names = g.pick([(st.wind, ('a', 'b', 't_shift')), (st.hum, ('a0', 'a1'))])
    for k in names:
        v = g.u(-1, 1)
        how = g.i(0, 2)
        if how == 0:
            b[k] = v
        elif how == 1:
            setattr(b, k, v)
        else:
            b.update(**{k: v})
    m.tag('parameters edited')


def op_place(g, m, s):
    c30.place_part(g, s)
    m.tag('place')


def op_data(g, m, s):
    s.data_daily = c30.new_data(g, s.data_daily)
    c30.sure(g, s)
    m.tag('new data')


def op_inplace(g, m, s):
    c = g.pick(['precip', 'wind', 'hum', 'glob', 'ssd'])
    v = s.data_daily[c].astype(float)
    s.data_daily[c] = v + g.r.uniform(0, 0.2, len(v)) * (v != 0)
    if g.chance(0.5):
        s.data_disagg['temp'] = g.r.uniform(270, 290, len(s.data_disagg))
    t = s.statistics.glob.angstroem
    t.iloc[g.i(0, 11), 0] = g.u(0.1, 0.4)
    s.statistics.temp.mean_course.iloc[g.i(0, 23), 0] = g.u(0, 1)
    m.tag('edited in place')


def op_calibrate(g, m, s):
    common.calibrate(g, s)
    c30.sure(g, s)
    m.tag('calibrated')


def op_tables(g, m, s):
    for c in s.statistics.precip.stats:
        c = g.pick(c) if isinstance(c, list) else c
        k = g.i(0, 1), g.i(0, 3)
        c.p10[k], c.p01[k], c.pxx[k] = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0)][g.i(0, 1)]
        c.threshold[0] = c.threshold[0] * g.u(0.5, 2)
        if g.chance(0.3):
            c.percentile = g.i(10, 90)
    m.tag('tables edited')


def op_calc(g, m, s):
    st = s.statistics
    st.data = g.hourly(g.days(n=g.i(20, 40)), missing=g.chance(0.3))
    k = g.pick(['wind', 'humidity', 'temperature', 'radiation', 'precipitation', 'precipitation'])
    if k == 'precipitation':
        kw = dict(avg_stats=g.chance(0.5), percentile=g.pick([50, 30]))
        st.calc_precipitation_stats(**kw)
        m.tag('precipitation calibrated')
    else:
        getattr(st, 'calc_%s_stats' % k)()
    if len(s.data_daily) > 1 and k == 'precipitation':
        s.disaggregate_precipitation('cascade')
    elif k == 'temperature':  # further operations must be able to use it for any month
        st.temp.max_delta, st.temp.mean_course = g.max_delta(), g.course()
    else:
        common.calibrate(g, s)
        c30.sure(g, s)


OPS = [op_disaggregate, op_disaggregate, op_disaggregate, op_parameters, op_place, op_data, op_inplace, op_calibrate, op_tables, op_calc]


def run(op, m, s, seed):
    np.random.seed(seed)
    try:
        with m.refused():
            op(gen.Gen(seed), m, s)
    except CaseAbort:
        raise
    except Exception as e:  # noqa: BLE001
        return type(e).__name__
    return None


def cascade_equal(g, m):
    """Equality of cascade statistics."""
    v = np.array([1.0, 3.0, 8.0])
    c = common.casc_stats(g, v, per_level=False)
    d = duplicate(g, m, c)
    m.check(bool(c == d) and not bool(c != d), 'a copy of cascade statistics is not equal')
    m.tag('cascade equal')
    name = g.pick(['p01', 'p10', 'pxx', 'wxx', 'threshold', 'percentile'])
    if name == 'percentile':
        d.percentile = c.percentile + g.pick([1, -7, 0.5])
    else:
        a = getattr(d, name)
        k = tuple(g.i(0, n - 1) for n in a.shape)
        a[k] = g.pick([a[k] + 1e-3, a[k] - 0.25, a[k] + 1.0, a[k] + 1e-7, a[k] + 1e-12, np.nextafter(a[k], 9)])
    m.check(not bool(c == d) and bool(c != d), 'cascade statistics with another %s are equal' % name)
    m.check(bool(c == duplicate(g, m, c)), 'changing a copy changed the original')
    m.tag('cascade different')
    m.judged(digest([snap(c), snap(d)]), n=3)


def case(g, m):
    import melodist
    if g.chance(0.15):
        cascade_equal(g, m)
        return
    c30.Live.stations = []
    lon, lat, tz = c30.safe_place(g)
    with m.silent():
        s = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=c30.new_data(g), name='x', id=g.i(1, 99))
        common.calibrate(g, s)
        c30.sure(g, s)
        if g.chance(0.4):
            s.statistics.data = g.hourly(g.days(n=3), missing=False)
        for _ in range(g.i(0, 3)):
            run(g.pick(OPS), m, s, g.i(0, 2**31))
    if g.chance(0.2):  # statistics alone
        st = duplicate(g, m, s.statistics)
        d = diff(snap(s.statistics), snap(st))
        m.check(d is None, 'copied statistics differ: %s' % d)
        m.check(st is not s.statistics, 'statistics not copied')
        access(m, st, 'copied statistics')
        with m.silent():
            t = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=s.data_daily)
            u = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=s.data_daily)
            t.statistics = duplicate(g, m, s.statistics)
            u.statistics = st
        m.tag('statistics')
    else:
        u = s
        t = duplicate(g, m, s)
        if g.chance(0.3):
            t = duplicate(g, m, t)
            m.tag('copy of a copy')
    pair = [u, t]
    if any(isinstance(x, list) for x in s.statistics.precip.stats):
        m.tag('per level')
    with m.silent():
        last = [snap(x) for x in pair]
        d = diff(*last)
        m.check(d is None, 'copy differs: %s' % d)
        for i in range(g.i(2, 5)):
            for x in pair:
                access(m, x.statistics, 'statistics')
            op, seed = g.pick(OPS), g.i(0, 2**31)
            order = g.pick([(0, 1), (1, 0)])
            m.tag('original first' if order[0] == 0 else 'copy first')
            out = {}
            for k in order:
                out[k] = run(op, m, pair[k], seed)
                other = 1 - k
                now = snap(pair[other])
                d = diff(last[other], now)
                m.check(d is None, 'operation on %s (%s) changed the other: %s' % (('the original', 'the copy')[k], op.__name__[3:], d))
                last[k] = snap(pair[k])
            m.check(out[0] == out[1], '%s: original gave %s, copy %s' % (op.__name__[3:], out[0], out[1]))
            d = diff(last[0], last[1], tol=1e-12)
            m.check(d is None, 'same operation (%s) gave different states: %s' % (op.__name__[3:], d))
            m.judged(digest([op.__name__, seed, last[0]]), n=3, sample=common.describe(operation=op.__name__[3:], days=len(u.data_daily)))
