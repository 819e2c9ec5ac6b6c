"""Seeded generators for hostile meteorological inputs."""
import numpy as np
import pandas as pd

STARTS = ['2016-02-26', '2015-12-29', '1999-12-30', '2000-02-27', '1969-12-30', '1904-02-27', '2100-02-26',
          '2015-06-15', '2015-10-29', '2012-11-28', '2019-03-30', '2015-01-01', '2016-12-30', '2015-04-29',
          '2016-01-30', '2015-12-01', '2020-12-20', '1950-06-01']

PLACES = [  # lon, lat, time zone
    (8.86, 51.0, 1), (0.0, 0.0, 0), (-0.1, 51.5, 0), (18.95, 69.65, 1), (15.6, 78.2, 1), (-68.3, -54.8, -3),
    (77.2, 28.6, 5.5), (-176.5, -43.9, 12.75), (179.9, -17.0, 12), (-179.9, 66.9, 12), (174.8, -41.3, 12),
    (-150.0, 64.8, -9), (0.0, 90.0, 0), (0.0, -90.0, 0), (166.7, -77.85, 12), (25.7, 66.5, 2), (-3.7, 40.4, 1),
    (103.8, 1.35, 8), (-43.2, -22.9, -3), (-52.7, 47.6, -3.5), (85.3, 27.7, 5.75), (-157.9, 21.3, -10),
    (23.4, 23.43697, 2), (-171.8, -13.8, 13), (129.7, 62.0, 9), (30.0, 67.2, 2), (20.0, 68.5, 1),
]


class Gen:
    def __init__(self, seed):
        self.seed = seed
        self.r = np.random.RandomState(seed)

    # --- elementary choices -----------------------------------------------------------------------
    def pick(self, seq):
        return seq[self.r.randint(len(seq))]

    def chance(self, p):
        return bool(self.r.random_sample() < p)

    def u(self, a=0.0, b=1.0, size=None):
        v = self.r.uniform(a, b, size)
        return float(v) if size is None else v

    def i(self, a, b):
        """Integer from a to b inclusive."""
        return int(self.r.randint(a, b + 1))

    # --- time ---------------------------------------------------------------------------------------
    def start(self):
        if self.chance(0.5):
            return pd.Timestamp(self.pick(STARTS))
        return pd.Timestamp('1901-01-01') + pd.Timedelta(days=self.i(0, 72000))

    def ndays(self, lo=1, hi=800):
        x = self.u()
        if x < 0.06:
            n = 1
        elif x < 0.14:
            n = 2
        elif x < 0.40:
            n = self.i(3, 6)
        elif x < 0.78:
            n = self.i(7, 35)
        elif x < 0.95:
            n = self.i(36, 100)
        elif x < 0.995:
            n = self.i(360, 800)
        else:
            n = self.i(1100, 4000) if hi >= 800 else hi
            hi = max(hi, 4000) if hi >= 800 else hi
        return int(min(max(n, lo), hi))

    def days(self, n=None, lo=1, hi=800, start=None):
        n = self.ndays(lo, hi) if n is None else n
        idx = pd.date_range(self.start() if start is None else start, periods=n, freq='D')
        x = self.u()
        if x < 0.1:
            idx = idx.as_unit('ns')
        elif x < 0.15:
            idx = idx.as_unit('s')
        elif x < 0.25:
            idx = pd.DatetimeIndex(list(idx))  # no frequency
        return idx

    def gappy(self, idx, lo=1):
        """A daily index with days left out (sometimes regularly), as a plain index without frequency."""
        n = len(idx)
        if n <= max(lo, 2):
            return pd.DatetimeIndex(list(idx))
        x = self.u()
        if x < 0.2:
            keep = np.arange(n) % 2 == 0
        elif x < 0.5:  # one hole
            a = self.i(1, n - 2)
            b = self.i(a + 1, n - 1)
            keep = np.ones(n, bool)
            keep[a:b] = False
        else:
            keep = self.r.random_sample(n) < self.u(0.3, 0.95)
        if keep.sum() < lo:
            keep[:lo] = True
        return pd.DatetimeIndex(list(idx[keep]))

    # --- places ------------------------------------------------------------------------------------
    def place(self, polar=None):
        """(lon, lat, time zone); the zone may deviate from solar time."""
        if self.chance(0.45):
            lon, lat, tz = self.pick(PLACES)
        else:
            lon = round(self.u(-180, 180), self.pick([0, 2, 5]))
            lat = round(self.pick([self.u(-90, 90), self.u(-60, 60), self.u(62, 72), self.u(-72, -62)]), self.pick([0, 2, 5]))
            tz = float(np.round(lon / 15)) + self.pick([0, 0, 0, 0, 1, -1, 0.5])
            tz = float(min(max(tz, -12), 14))
        if polar is True and abs(lat) < 66:
            lat = float(np.sign(lat) or 1) * round(self.u(66, 88), 2)
        if polar is False and abs(lat) > 60:
            lat = round(lat * 0.6, 3)
        if isinstance(tz, float) and tz == int(tz) and self.chance(0.5):
            tz = int(tz)
        return lon, lat, tz

    # --- missing values ------------------------------------------------------------------------------
    def missing(self, n, p_any=0.5):
        """Boolean array of missing positions."""
        m = np.zeros(n, bool)
        if not self.chance(p_any):
            return m
        x = self.u()
        if x < 0.2:
            m[0] = True
        elif x < 0.4:
            m[-1] = True
        elif x < 0.6:
            m[self.i(0, n - 1)] = True
        elif x < 0.75:
            a = self.i(0, n - 1)
            m[a:a + self.i(2, 5)] = True
        elif x < 0.95:
            m |= self.r.random_sample(n) < self.pick([0.05, 0.2, 0.6])
        else:
            m[:] = True
        return m

    # --- daily data ----------------------------------------------------------------------------------
    def precip(self, n, missing=True):
        x = self.u()
        wet = self.r.random_sample(n) < self.pick([0.1, 0.4, 0.4, 0.7, 1.0])
        v = np.where(wet, self.r.gamma(0.7, 8.0, n), 0.0)
        if x < 0.12:
            v = np.where(wet, np.round(self.r.gamma(0.7, 8.0, n) * 10) / 10, 0.0)
        elif x < 0.2:
            v[:] = 0
            v[self.i(0, n - 1)] = self.pick([0.1, 7.3, 1e-6, 412.5, 1e-9])
        elif x < 0.28:
            v = v * self.pick([1e-6, 1e-3, 50.0])
        elif x < 0.33:
            v[:] = self.pick([0.0, 5.0, 24.0])
        elif x < 0.4:
            v = np.round(v)
        if missing:
            v[self.missing(n)] = np.nan
        return v

    def temps(self, n, missing=True, zero_range=True):
        """tmin, tmean, tmax in K."""
        base = self.pick([243.0, 262.0, 273.15, 273.15, 281.0, 296.0])
        walk = np.cumsum(self.r.normal(0, self.pick([0.0, 1.0, 3.0, 8.0]), n))
        walk -= np.linspace(0, 1, n) * walk[-1] if n > 20 else 0
        low = np.clip(base + walk, 222, 308)
        rng = self.r.uniform(*self.pick([(0.5, 4.0), (3.0, 14.0), (10.0, 25.0), (0.1, 0.3)]), size=n)
        if zero_range and self.chance(0.15):
            rng[self.r.random_sample(n) < 0.3] = 0.0
        tmin, tmax = low, low + rng
        if self.chance(0.2):
            k = self.i(0, n - 1)
            tmin[k] = 273.15
            tmax[k] = 273.15 + rng[k]
        if self.chance(0.3):
            tmin, tmax = np.round(tmin, 1), np.round(tmax, 1)
        tmean = tmin + (tmax - tmin) * self.r.uniform(0.25, 0.75, n)
        if self.chance(0.2):
            tmean = (tmin + tmax) / 2
        if missing:
            x = self.u()
            if x < 0.25:
                m = self.missing(n, 1.0)
                tmin[m] = tmax[m] = tmean[m] = np.nan
            elif x < 0.35:
                tmin[self.missing(n, 1.0)] = np.nan
            elif x < 0.45:
                tmax[self.missing(n, 1.0)] = np.nan
            elif x < 0.5:
                tmean[self.missing(n, 1.0)] = np.nan
        return tmin, tmean, tmax

    def daily(self, idx, missing=True, zero_range=True, extras=True):
        n = len(idx)
        tmin, tmean, tmax = self.temps(n, missing, zero_range)
        hum = np.clip(self.r.normal(self.pick([20, 60, 75, 97]), self.pick([2, 12, 25]), n), 1, 100)
        if self.chance(0.2):
            hum[self.r.random_sample(n) < 0.3] = 100.0
        hmin = hum * self.r.uniform(0.3, 1.0, n)
        hmax = hum + (100 - hum) * self.r.uniform(0, 1, n)
        wind = self.r.weibull(1.6, n) * self.pick([0.5, 3, 12])
        if self.chance(0.3):
            wind[self.r.random_sample(n) < 0.3] = 0.0
        glob = self.r.uniform(0, self.pick([0.05, 60, 350]), n)
        if self.chance(0.2):
            glob[self.r.random_sample(n) < 0.4] = 0.0
        ssd = self.r.uniform(0, self.pick([3, 8, 15]), n)
        if self.chance(0.3):
            ssd[self.r.random_sample(n) < 0.4] = 0.0
        d = dict(temp=tmean, tmin=tmin, tmax=tmax, precip=self.precip(n, missing), glob=glob, hum=hum, hum_min=hmin,
                 hum_max=hmax, wind=wind, ssd=ssd)
        if missing:
            for c in ('glob', 'hum', 'hum_min', 'hum_max', 'wind', 'ssd'):
                if self.chance(0.35):
                    d[c] = d[c].copy()
                    d[c][self.missing(n, 1.0)] = np.nan
        df = pd.DataFrame(d, index=idx)
        if extras:
            if self.chance(0.15):
                df['remark'] = np.arange(n)
            if self.chance(0.15):
                df.index.name = 'date'
            if self.chance(0.1):
                df = df[list(self.r.permutation(df.columns))]
            if self.chance(0.08) and not df.wind.isna().any():
                df['wind'] = df.wind.round().astype(int)
            if self.chance(0.08) and not df.precip.isna().any():
                df['precip'] = df.precip.round().astype(int)
            if self.chance(0.05):
                for c in (['glob'], ['hum'], ['ssd'], ['temp', 'tmin', 'tmax']):
                    if not df[c].isna().any(axis=None):
                        df[c] = df[c].round().astype(int)
        return df

    # --- hourly observations ---------------------------------------------------------------------------
    def hours(self, idx):
        out = pd.DatetimeIndex([d + pd.Timedelta(hours=h) for d in idx for h in range(24)])
        return out

    def hourly(self, idx, missing=True, rain=None):
        """Hourly observations over the given days."""
        n = len(idx) * 24
        hidx = self.hours(idx)
        h = np.arange(n) % 24
        doy = np.asarray(hidx.dayofyear)
        season = np.sin(2 * np.pi * (doy - 110) / 365.0)
        temp = self.pick([268.0, 281.0, 290.0]) + 9 * season + self.u(1, 7) * np.cos(2 * np.pi * (h - self.u(12, 17)) / 24)
        temp = temp + np.repeat(self.r.normal(0, 3, len(idx)), 24) + self.r.normal(0, 0.8, n)
        hum = np.clip(70 - 2 * (temp - 281) + self.r.normal(0, 8, n), 3, 100)
        wind = np.abs(np.repeat(self.r.weibull(1.6, len(idx)) * 3 + 0.2, 24) * (1 + 0.3 * np.cos(np.pi * (h - 14) / 12))
                      + self.r.normal(0, 0.3, n))
        glob = np.clip((300 + 250 * season) * np.sin(np.pi * (h - 6) / 12.0), 0, None) * self.r.uniform(0.3, 1, n)
        ssd = np.where(glob > 50, self.r.uniform(0, 60, n), 0.0)
        pr = self.rain(n) if rain is None else rain
        df = pd.DataFrame(dict(temp=temp, precip=pr, glob=glob, hum=hum, wind=wind, ssd=ssd), index=hidx)
        if self.chance(0.5):
            df = df.round(1)
        if self.chance(0.3):  # days with exact special values: calm, overcast, saturated, flat maxima
            days = self.r.permutation(len(idx))[:len(idx) // 2]
            for c, v in (('wind', 0.0), ('glob', 0.0), ('ssd', 0.0), ('hum', 100.0), ('temp', None)):
                if self.chance(0.4):
                    a = df[c].to_numpy().reshape(-1, 24).copy()
                    if v is None:
                        a[days, 13:17] = a[days].max(axis=1)[:, None]
                    else:
                        a[days] = v
                    df[c] = a.ravel()
        if missing:
            for c in df.columns:
                if self.chance(0.4):
                    m = self.r.random_sample(n) < self.pick([0.01, 0.1])
                    if self.chance(0.4):
                        k = self.i(0, len(idx) - 1) * 24
                        m[k:k + 24] = True
                    if self.chance(0.2):
                        m[:self.i(1, 30)] = True
                    df.loc[m, c] = np.nan
        return df

    def rain(self, n, p_wet=None):
        """Intermittent rain with persistence."""
        p_wet = self.pick([0.05, 0.12, 0.3, 0.6]) if p_wet is None else p_wet
        stay = self.pick([0.3, 0.7, 0.85])
        u = self.r.random_sample(n)
        a = self.r.gamma(self.pick([0.6, 1.0]), self.pick([0.4, 1.5]), n)
        v = np.zeros(n)
        wet = False
        enter = p_wet * (1 - stay) / max(1 - p_wet, 1e-3)
        for k in range(n):
            wet = u[k] < (stay if wet else enter)
            if wet:
                v[k] = a[k]
        if self.chance(0.5):
            v = np.round(v * 10) / 10
        return v

    # --- calibrated quantities ----------------------------------------------------------------------------
    def course(self, normalised=True, months=range(1, 13)):
        """Mean daily course: 24 hours x months."""
        h = np.arange(24)[:, None]
        mo = np.array(list(months))
        v = np.cos(2 * np.pi * (h - self.r.uniform(11, 18, len(mo))) / 24) + self.r.normal(0, 0.15, (24, len(mo)))
        if normalised:
            v = (v - v.min(axis=0)) / (v.max(axis=0) - v.min(axis=0))
        else:
            v = np.clip(v, 0, None) * self.r.uniform(50, 600, len(mo))
        return pd.DataFrame(v, index=np.arange(24), columns=mo)

    def course_of(self, idx, normalised=True):
        """Mean daily course, at times of a record that covers only some months besides those of the days."""
        if self.chance(0.5):
            return self.course(normalised)
        need = set(idx.month) | set((idx[-1:] + pd.Timedelta(days=1)).month)
        return self.course(normalised, [k for k in range(1, 13) if k in need or self.chance(0.25)])

    def max_delta(self):
        if self.chance(0.15):  # maxima before sunrise occur in winter
            return pd.Series(self.r.uniform(-10.0, 3.0, 12), index=np.arange(1, 13))
        return pd.Series(self.r.uniform(-1.0, 4.0, 12) if self.chance(0.5) else self.r.uniform(0.5, 3.5, 12),
                         index=np.arange(1, 13))

    def mhpm(self):
        idx = pd.MultiIndex.from_product([range(1, 13), range(24), [False, True]])
        return pd.Series(self.r.uniform(5, 100, len(idx)), index=idx)

    def monthly(self, names, ranges):
        return pd.DataFrame({n: self.r.uniform(a, b, 12) for n, (a, b) in zip(names, ranges)}, index=np.arange(1, 13))

    def seasons(self, full=None):
        x = self.u()
        if x < 0.25:
            return [np.arange(12) + 1]
        if x < 0.45:
            return [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]]
        if x < 0.6:
            return [[4, 5, 6, 7, 8, 9], [10, 11, 12, 1, 2, 3]]
        if x < 0.7:
            return [np.array([m]) for m in range(1, 13)]
        months = list(self.r.permutation(12) + 1)
        k = self.i(1, 4)
        cuts = sorted(self.r.choice(np.arange(1, 12), size=k, replace=False))
        parts = [sorted(int(m) for m in p) for p in np.split(np.array(months), cuts)]
        if full is False or (full is None and self.chance(0.4)):
            parts = parts[:-1]
        return parts

    def table(self, kind='random'):
        """Probability table (p01, p10, pxx, wxx) of the cascade.

        deterministic: one sure outcome per cell; sparse: some outcomes impossible; random: all possible.
        """
        p = np.zeros((3, 2, 4))
        w = np.zeros((7, 2, 4))
        if kind == 'deterministic':
            o = self.r.randint(0, 3, (2, 4))
            if self.chance(0.5):
                o = np.where(self.r.random_sample((2, 4)) < 0.6, 2, o)
            c = self.r.randint(0, 7, (2, 4))
            for a in range(2):
                for b in range(4):
                    p[o[a, b], a, b] = 1
                    w[c[a, b], a, b] = 1
        else:
            for a in range(2):
                for b in range(4):
                    q = self.r.dirichlet(np.ones(3))
                    v = self.r.dirichlet(np.ones(7))
                    if kind == 'sparse':
                        k = self.r.permutation(3)[:self.i(0, 2)]
                        q[k] = 0
                        v[self.r.permutation(7)[:self.i(0, 6)]] = 0
                        q, v = q / q.sum(), v / v.sum()
                    p[:, a, b] = q
                    w[:, a, b] = v
            # cumulated probabilities must reach one in spite of rounding
            p[2] = 1 - p[0] - p[1]
            np.clip(p, 0, 1, out=p)
            for a in range(2):
                for b in range(4):
                    k = int(np.argmax(w[:, a, b]))
                    for _ in range(60):
                        if np.cumsum(w[:, a, b])[-1] >= 1:
                            break
                        w[k, a, b] = np.nextafter(w[k, a, b], 2)
        return p[0], p[1], p[2], w
