"""Equal inputs give equal results, whatever was computed before."""
import json
import os
import subprocess
import sys

import numpy as np
import pandas as pd

from .. import common, core, gen, pristine, probe, variants
from ..snap import diff, digest, snap
from .c01 import master

ID = 'C21'
N = dict(quick=500, thorough=6000)
RULE = ('sequences of calls on several stations with repetitions; a call with the same arguments, relevant state and random state as an '
        'earlier one must give the same result, fixed probe calls are repeated between the cases and in a fresh process, and calls after closely '
        'related ones (one argument changed) are compared with a process without history; distinct by call, '
        'arguments and state')
TRACK_RNG = True
REQUIRED = ['repeated call', 'repeated random call', 'new realisation', 'random state kept', 'probe', 'fresh process', 'wind realisation',
            'cascade realisation', 'related calls', 'StationStatistics.calc_wind_stats', 'StationStatistics.calc_temperature_stats',
            'StationStatistics.calc_humidity_stats', 'StationStatistics.calc_radiation_stats'] + ['Station.disaggregate_' + k for k in ('wind', 'temperature', 'humidity', 'radiation', 'precipitation')]

VAR = {'Station.disaggregate_wind': 'wind', 'Station.disaggregate_temperature': 'temp', 'Station.disaggregate_humidity': 'hum',
       'Station.disaggregate_radiation': 'glob', 'Station.disaggregate_precipitation': 'precip'}
SKIP = ('write_smet', 'read_smet', 'read_dwd', 'read_single_knmi_file', 'read_knmi_dataset', 'StationStatistics.from_json')
SEEN = {}
PROBES = {}
PLACE = {}
CLEAN = []


def is_random(ev):
    f, a = ev.fn, ev.args
    if f in ('disaggregate_wind', 'Station.disaggregate_wind'):
        return a['method'] == 'random'
    if f in ('disagg_prec', 'Station.disaggregate_precipitation'):
        return a['method'] == 'cascade'
    return f == 'disagg_prec_cascade'


def every(ev, m):
    f = ev.fn
    rnd = is_random(ev)
    if not rnd:
        m.check(ev.rng_before == ev.rng_after, '%s changed the state of the random generator' % f)
        m.tag('random state kept')
    if f.endswith('=') or f in SKIP or ev.exc is not None:
        return
    state = None
    if f in VAR or f == 'Station.interpolate':
        b = ev.before
        state = [b.data_daily, b.lon, b.lat, b.timezone, b.statistics, b.data_disagg['temp'] if VAR.get(f) == 'hum' else None]
        res = ev.after.data_disagg[VAR[f]] if f in VAR else snap(ev.result)
    elif f.startswith('StationStatistics.calc'):
        # also depends on the place of the station the statistics belong to
        state = [ev.before, PLACE.get(id(ev.recv), id(ev.recv))]
        res = ev.after
    elif f == 'Station.calc_sun_times':
        b = ev.before
        state = [b.data_daily, b.lon, b.lat, b.timezone]
        res = ev.after.sun_times
    else:
        state = ev.before
        res = snap(ev.result)
    key = digest([f, ev.args, state, ev.rng_before if rnd else None])
    if key in SEEN:
        d = diff(SEEN[key], res, 'result', tol=1e-9, names=False)
        if d:
            m.fail('%s gave another result for the same input (%s)' % (f, d), args=ev.args)
        m.tag('repeated call')
        if rnd:
            m.tag('repeated random call')
    else:
        SEEN[key] = res
    m.tag(f)
    m.judged(key, sample=common.describe(call=f, arguments=list(ev.args)))


EVERY = every


def run_probe(m, name, f):
    got = probe.array(f()).ravel()
    if name in PROBES:
        m.close(got, PROBES[name], 'probe %s repeated after other work' % name, rtol=1e-9)
        m.tag('probe')
    else:
        PROBES[name] = got
    m.evaluations += 1


def fresh(m, c):
    env = dict(os.environ, PYTHONHASHSEED='12345')
    p = subprocess.run([sys.executable, '-W', 'ignore', '-m', 'mon.probe'], cwd=core.VERIF, env=env, capture_output=True, text=True, timeout=300)
    if p.returncode:
        raise core.HarnessError(p.stderr[-2000:])
    out = json.loads(p.stdout.strip().splitlines()[-1])
    for k, v in out.items():
        got = probe.array(c[k]()).ravel()
        m.close(got, np.array([float(x) for x in v]), 'probe %s in a fresh process' % k, rtol=1e-9)
        m.tag('fresh process')


def one_of_family(req):
    name, seed, k = req
    fam = {f.__name__: f for f in variants.FAMILIES}[name](gen.Gen(seed))
    return fam[k]()


def family(g, m):
    """Closely related calls one after the other give what each of them gives in a process without any history."""
    f, seed = g.pick(variants.FAMILIES), g.i(0, 2**31 - 1)
    with m.silent():
        fam = f(gen.Gen(seed))
        order = list(g.r.permutation(len(fam)))
        got = [(int(k), fam[k]()) for k in order]
    # the later calls had most of the others before them
    for k, r in got[-3:]:
        ok, want = CLEAN[0].run((f.__name__, seed, k))
        if not ok:
            m.fail('%s failed in a fresh process only: %s' % (f.__name__, want))
        m.close(r, want, '%s after related calls differs from a process without history' % f.__name__, rtol=1e-9)
        m.tag('related calls')
        m.tag('related calls ' + f.__name__)
        m.judged(digest(['family', f.__name__, seed, k]))


def case(g, m):
    import melodist
    if not CLEAN or CLEAN[0].owner != os.getpid():
        CLEAN[:] = [pristine.Pristine(one_of_family)]
    if g.chance(0.6):
        for _ in range(3):
            family(g, m)
    SEEN.clear()
    hold = []
    with m.silent():
        c = probe.calls()
    if m.case == 0:
        cc = dict(c)
        cc.update(probe.casc_calls())
        fresh(m, cc)
    idx = g.days(lo=5, hi=30)
    df = g.daily(idx, extras=False, missing=g.chance(0.3))
    place = g.place(polar=False)
    obs = g.hourly(g.days(n=g.i(15, 30)), missing=False)
    a = common.station(g, df.copy(), place=place)
    b = common.station(g, g.daily(g.days(lo=3, hi=20), extras=False))
    st = a.statistics
    mast = {id(s): master(g, s.data_daily.index) for s in (a, b)}
    hours = dict(tmin=7, tmax=14)

    def ops(s):
        t = s.statistics
        return [lambda: s.disaggregate_temperature('sine_min_max', 'sun_loc_shift'),
                lambda: s.disaggregate_temperature('mean_course_mean'),
                lambda: s.disaggregate_humidity('dewpoint_regression', True),
                lambda: s.disaggregate_humidity('min_max'),
                lambda: s.disaggregate_humidity('month_hour_precip_mean'),
                lambda: s.disaggregate_wind('cosine'),
                lambda: s.disaggregate_wind('random'),
                lambda: s.disaggregate_radiation('pot_rad_via_ssd'),
                lambda: s.disaggregate_radiation('pot_rad_via_bc'),
                lambda: s.disaggregate_radiation('mean_course'),
                lambda: s.disaggregate_precipitation('equal'),
                lambda: s.disaggregate_precipitation('cascade'),
                lambda: s.disaggregate_precipitation('masterstation', master_precip=mast.get(id(s), mast[id(a)])),
                lambda: s.interpolate(hours),
                lambda: s.calc_sun_times(),
                lambda: t.to_json()]
    funcs = [lambda: melodist.disaggregate_wind(df.wind, 'random'),
             lambda: melodist.disaggregate_wind(df.wind, 'equal'),
             lambda: melodist.fit_cosine_function(obs.wind),
             lambda: melodist.calculate_dewpoint_regression(obs),
             lambda: melodist.calculate_month_hour_precip_mean(obs),
             lambda: melodist.get_shift_by_data(obs.temp, *place),
             lambda: melodist.util.daily_from_hourly(obs),
             lambda: melodist.util.calculate_mean_daily_course_by_month(obs.temp, normalize=True),
             lambda: melodist.potential_radiation(obs.index, *place),
             lambda: melodist.util.get_sun_times(idx, *place),
             lambda: melodist.seasonal_subset(df, months=[1, 2, 3]),
             lambda: melodist.util.detect_gaps(obs, 3600, verbose=False)]
    pool = ops(a) + ops(b) + funcs
    pool = [pool[i] for i in g.r.permutation(len(pool))[:8]]
    a.disaggregate_temperature()
    b.disaggregate_temperature()
    PLACE.clear()
    if g.chance(0.4):
        # calibrated twice from the same observations, by different objects at the same place
        for s in (a, copy_station(a, place)):
            s.statistics.data = obs
            PLACE[id(s.statistics)] = place
            s.statistics.wind.update(a=None, b=None, t_shift=None)
            s.statistics.calc_wind_stats()
            s.statistics.temp.update(max_delta=None, mean_course=None)
            s.statistics.calc_temperature_stats()
            s.statistics.calc_humidity_stats()
            s.statistics.calc_radiation_stats()
            hold.append(s)
        common.calibrate(g, a)
    seed = g.i(0, 2**31)
    for k in range(14):
        if g.chance(0.5):
            np.random.seed(seed)
        g.pick(pool)()
        if g.chance(0.1) and k:
            # same content in new objects
            pool.append(g.pick(ops(copy_station(a, place))) if g.chance(0.5) else g.pick(pool))
    # realisations
    s = g.pick([a, b])
    w = (s.data_daily.wind > 0).any()
    x = g.u()
    if x < 0.5 and w:
        s.disaggregate_wind('random')
        p = s.data_disagg.wind.to_numpy().copy()
        s.disaggregate_wind('random')
        q = s.data_disagg.wind.to_numpy()
        m.check(not np.array_equal(p, q, equal_nan=True), 'random wind repeats without reseeding')
        m.tag('new realisation')
        m.tag('wind realisation')
    elif x >= 0.5:
        d = pd.Series(np.where(g.r.random_sample(30) < 0.7, g.u(1, 30), 0.0), index=pd.date_range('2015-03-01', periods=30, freq='D'))
        c2 = common.casc_stats(g, d, kind='random')
        p = melodist.disagg_prec(d, 'cascade', cascade_options=c2).to_numpy()
        q = melodist.disagg_prec(d, 'cascade', cascade_options=c2).to_numpy()
        m.check(not np.array_equal(p, q), 'cascade repeats without reseeding')
        m.tag('new realisation')
        m.tag('cascade realisation')
    names = list(c)
    for _ in range(3):
        k = g.pick(names)
        run_probe(m, k, c[k])


def copy_station(s, place):
    import copy
    import melodist
    t = melodist.Station(lon=place[0], lat=place[1], timezone=place[2], data_daily=s.data_daily.copy())
    t.statistics = copy.deepcopy(s.statistics)
    t.disaggregate_temperature()
    return t
