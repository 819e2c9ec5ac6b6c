"""Workload and preparation shared by the temperature properties."""
import numpy as np

from . import common, norm, ref


class Prep:
    pass


def prepare(ev):
    """Normalised event with hours of the extremes and dark days."""
    x = norm.temperature(ev)
    p = Prep()
    p.x = x
    p.days = ref.day_list(x.daily.index)
    p.n = len(p.days)
    p.v = norm.grid(x.result, p.n)
    c = ref.cols(x.daily, ('tmin', 'tmax', 'temp'))
    p.tmin, p.tmax = c['tmin'], c['tmax']
    p.temp = c.get('temp', np.full(p.n, np.nan))
    p.sine = x.method.startswith('sine')
    p.lo = p.hi = None
    p.dark = np.zeros(p.n, bool)
    if p.sine:
        delta = None if x.delta is None else {int(k): float(v) for k, v in x.delta.items()}
        p.lo, p.hi = ref.extremes_hours(p.days, norm.values(x.sun.sunrise), norm.values(x.sun.sunnoon), x.when, delta)
        p.dark = norm.values(x.sun.daylength) < 3
    p.prev, p.next = ref.neighbours(p.days)
    p.near_dark = p.dark.copy()
    for i in range(p.n):
        for k in (p.prev[i], p.next[i], i - 1, i + 1):
            if 0 <= k < p.n and p.dark[k]:
                p.near_dark[i] = True
    return p


def drive(g, m, polar=False, n=None, methods=None):
    """Calls the temperature disaggregation directly and through a station."""
    import melodist
    if polar:
        idx = g.days(n=n or g.i(2, 120), start=g.start().replace(month=g.pick([10, 11, 12, 1, 2, 5, 6, 7]), day=g.i(1, 28)))
        place = g.place(polar=True)
    else:
        idx = g.days(n=n, hi=400 if g.chance(0.05) else 40)
        place = g.place() if g.chance(0.3) else g.place(polar=False)
    df = g.daily(idx, missing=not polar)
    if g.chance(0.15) and not polar:
        df = df.drop(columns='temp')
    methods = list(common.TEMP if methods is None else methods)
    if 'temp' not in df:
        methods = [k for k in methods if not k.endswith('mean')]
    k = 2 if not polar else 1
    for _ in range(k):
        meth = g.pick(methods)
        kw = dict(method=meth)
        if meth.startswith('sine'):
            kw.update(min_max_time=g.pick(list(common.WHEN)), mod_nighttime=g.chance(0.4))
            if kw['min_max_time'] == 'fix' and g.chance(0.5):
                del kw['min_max_time']
        if g.chance(0.5):
            s = common.station(g, df.copy(), place=place)
            if g.chance(0.2):
                s.statistics.temp.max_delta = s.statistics.temp.max_delta.iloc[::-1]
            s.statistics.temp.mean_course = g.course_of(s.data_daily.index)
            s.disaggregate_temperature(**kw)
        else:
            d = df
            if g.chance(0.3) and not polar:
                d = df.loc[g.gappy(df.index)]
            sun = common.sun_frame(d.index, *place)
            if g.chance(0.5):
                kw.update(max_delta=g.max_delta(), mean_course=g.course_of(d.index))
            else:
                kw.update(max_delta=g.max_delta() if kw.get('min_max_time') == 'sun_loc_shift' else None,
                          mean_course=g.course_of(d.index) if not meth.startswith('sine') else None)
            melodist.disaggregate_temperature(d, sun_times=sun, **kw)
