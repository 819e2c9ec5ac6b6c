"""Fixed calls whose results must not depend on anything that happened before."""
import json

import numpy as np
import pandas as pd

from . import common, gen
from .props.c01 import master


def calls():
    """{name: callable giving an array}."""
    import melodist
    u = melodist.util
    g = gen.Gen(4711)
    idx = pd.date_range('2016-02-10', periods=40, freq='D')
    df = g.daily(idx, missing=False, extras=False)
    place = (8.9, 51.0, 1)
    obs = g.hourly(pd.date_range('2015-01-01', periods=60, freq='D'), missing=False, rain=g.rain(60 * 24, 0.3))
    temp = common.hourly_temp(g, df)
    sun = common.sun_frame(idx, *place)
    delta, course, gcourse, mhpm = g.max_delta(), g.course(), g.course(normalised=False), g.mhpm()
    casc = common.casc_stats(g, df.precip, kind='random', per_level=False)
    mast = master(g, idx)

    def seeded(f):
        def run():
            np.random.seed(99)
            return f()
        return run

    def station(*ops):
        def run():
            s = melodist.Station(lon=place[0], lat=place[1], timezone=place[2], data_daily=df.copy())
            st = s.statistics
            st.temp.update(max_delta=delta, mean_course=course)
            st.hum.update(a0=1.0, a1=0.99, kr=12, month_hour_precip_mean=mhpm)
            st.wind.update(a=0.2, b=0.95, t_shift=14.0)
            st.precip.update(months=[np.arange(12) + 1], stats=[casc])
            for name, args in ops:
                getattr(s, name)(*args)
            return s.data_disagg
        return seeded(run)

    c = {}
    for k in common.TEMP:
        c['temp ' + k] = lambda k=k: melodist.disaggregate_temperature(df, k, 'sun_loc_shift', False, delta, course, sun)
    for k in common.HUM:
        c['hum ' + k] = lambda k=k: melodist.disaggregate_humidity(df, k, temp, 1.0, 0.99, 12, mhpm, True)
    for k in common.WIND:
        c['wind ' + k] = seeded(lambda k=k: melodist.disaggregate_wind(df.wind, k, 0.2, 0.95, 14.0))
    for k in common.RAD:
        c['glob ' + k] = lambda k=k: melodist.disaggregate_radiation(df, sun, melodist.potential_radiation(temp.index, *place), k, mean_course=gcourse)
    c['cascade'] = seeded(lambda: melodist.disagg_prec(df.precip, 'cascade', cascade_options=casc))
    c['cascade 5min'] = seeded(lambda: melodist.disagg_prec_cascade(
        df.precip, common.casc_stats(gen.Gen(5), df.precip, levels=9, kind='random'), hourly=False))
    c['master'] = lambda: melodist.precip_master_station(df.precip, mast, 'uniform')
    c['equal'] = lambda: melodist.disagg_prec(df, 'equal')
    c['potential'] = lambda: melodist.potential_radiation(temp.index, *place)
    c['sun'] = lambda: u.get_sun_times(idx, *place)
    c['daily'] = lambda: u.daily_from_hourly(obs)
    c['course'] = lambda: u.calculate_mean_daily_course_by_month(obs.temp)
    c['shift'] = lambda: melodist.get_shift_by_data(obs.temp, *place)
    c['cosine fit'] = lambda: melodist.fit_cosine_function(obs.wind)
    c['dew point'] = lambda: melodist.calculate_dewpoint_regression(obs)
    c['humidity means'] = lambda: melodist.calculate_month_hour_precip_mean(obs)
    c['station'] = station(('disaggregate_temperature', ('sine_min_max', 'sun_loc')), ('disaggregate_humidity', ('minimal',)),
                           ('disaggregate_wind', ('random',)), ('disaggregate_radiation', ('pot_rad',)),
                           ('disaggregate_precipitation', ('cascade',)))
    return c


def casc_calls():
    """Slower ones."""
    import melodist
    g = gen.Gen(4712)
    obs = g.hourly(pd.date_range('2015-01-01', periods=40, freq='D'), missing=False, rain=g.rain(40 * 24, 0.4))

    def cal():
        out = []
        for s in melodist.build_casc(obs, avg_stats=True):
            out += [np.ravel(s.p01), np.ravel(s.p10), np.ravel(s.pxx), np.ravel(s.wxx), np.ravel(s.threshold)]
        return np.concatenate(out)
    return {'calibration': cal}


def array(x):
    return np.asarray(x, dtype=float)


def main():
    from . import core
    core.install()
    out = {}
    c = calls()
    c.update(casc_calls())
    for k in reversed(list(c)):
        out[k] = [repr(float(v)) for v in array(c[k]()).ravel()]
    print(json.dumps(out))


if __name__ == '__main__':
    main()
