"""Reference models, written from the documented behaviour, independent of the package.

Everything works on plain days and hours: daily values are arrays over days, hourly values are arrays
(days x 24). Missing values are NaN.
"""
import datetime
import math

import numpy as np
import pandas as pd

NAN = float('nan')
DAY_US = 86400 * 10**6


# --- time -------------------------------------------------------------------------------------------


def day_list(idx):
    """Calendar days of a daily index."""
    return [datetime.date(int(y), int(m), int(d)) for y, m, d in zip(idx.year, idx.month, idx.day)]


def steps(idx, step_us):
    """Microsecond time stamps of all steps of all days of the index, in chronological order."""
    epoch = datetime.date(1970, 1, 1).toordinal()
    base = np.array(sorted(d.toordinal() - epoch for d in day_list(idx)), dtype='int64') * DAY_US
    k = DAY_US // step_us
    return (base[:, None] + np.arange(k, dtype='int64')[None, :] * step_us).ravel()


def hour_steps(idx):
    return steps(idx, 3600 * 10**6)


def neighbours(days):
    """Positions of the calendar day before and after each day (-1 if absent)."""
    pos = {d: i for i, d in enumerate(days)}
    one = datetime.timedelta(days=1)
    return (np.array([pos.get(d - one, -1) for d in days]), np.array([pos.get(d + one, -1) for d in days]))


def doy(d):
    return d.toordinal() - datetime.date(d.year, 1, 1).toordinal() + 1


# --- sun --------------------------------------------------------------------------------------------


def sun_times(days, lon, lat, tz):
    """Rows (sunrise, noon, sunset, day length) in decimal hours and the raw (unwrapped) sunrise and sunset."""
    out = []
    for d in days:
        n = doy(d)
        a = math.radians(360.0 / 365.25 * (n - 79.346))  # Bourges (1985)
        dec = math.radians(0.3723 + 23.2567 * math.sin(a) - 0.7580 * math.cos(a) + 0.1149 * math.sin(2 * a)
                           + 0.3656 * math.cos(2 * a) - 0.1712 * math.sin(3 * a) + 0.0201 * math.cos(3 * a))
        s = 2 * math.pi * (n - 1) / 365.0  # Spencer (1971)
        eqt = 12 / math.pi * (0.000075 + 0.001868 * math.cos(s) - 0.032077 * math.sin(s)
                              - 0.014615 * math.cos(2 * s) - 0.040849 * math.sin(2 * s))
        dl = lon - 15.0 * tz
        while dl >= 180:
            dl -= 360
        while dl < -180:
            dl += 360
        noon = 12 - dl / 15.0 - eqt
        x = -math.tan(math.radians(lat)) * math.tan(dec)
        half = 12.0 if x < -1 else 0.0 if x > 1 else 12 * math.acos(x) / math.pi
        rise, sset = noon - half, noon + half
        out.append((rise + 24 if rise < 0 else rise, noon, sset - 24 if sset > 24 else sset, 2 * half, rise, sset, x))
    return np.array(out, dtype=float)


def potential_radiation(stamps, lon, lat, tz, slope=0.0, aspect=0.0, cloud=0.0):
    """Rows (direct, diffuse, cosine of zenith angle before limiting) for Timestamps."""
    out = []
    la = math.radians(lat)
    for t in stamps:
        n = doy(t.date())
        dec = math.radians(23.43697) * math.cos(2 * math.pi * (n - 173.0) / 365.25)
        solar = t.hour + t.minute / 60.0 + (lon - 15.0 * tz) / 15.0
        h = math.pi * (solar / 12.0 - 1)
        cz = math.sin(dec) * math.sin(la) + math.cos(dec) * math.cos(la) * math.cos(h)
        b = 2 * math.pi * n / 365.25
        ecc = 1.00011 + 0.034221 * math.cos(b) + 0.00128 * math.sin(b) + 0.000719 * math.cos(2 * b) + 0.000077 * math.sin(2 * b)
        s0 = 1367.0 * ecc
        if cz <= 0:
            out.append((0.0, 0.0, cz))
            continue
        c = min(cz, 1.0)
        sz = math.sqrt(max(0.0, 1 - c * c))
        if slope == 0:
            ci = c
        else:
            mu = math.asin(max(-1.0, min(1.0, math.cos(dec) * math.sin(h) / sz))) if sz > 0 else 0.0
            ci = math.cos(slope) * c + math.sin(slope) * sz * math.cos(mu - aspect)
        direct = max(0.0, s0 * (0.6 + 0.2 * c) * (1 - cloud) * ci)
        diffuse = s0 * (0.3 + 0.1 * c) * cloud * c
        out.append((direct, diffuse, cz))
    return np.array(out, dtype=float).reshape(-1, 3)


# --- temperature ---------------------------------------------------------------------------------------


def extremes_hours(days, sunrise, noon, option, delta=None):
    """Hours of minimum and maximum per day; delta: month -> shift."""
    lo, hi = [], []
    for d, r, n in zip(days, sunrise, noon):
        if option == 'fix':
            a, b = 7, 14
        else:
            a = round(r) if r <= n else 0
            if option == 'sun_loc':
                b = round(n) + 2
            else:
                b = round(n + delta[d.month])
                if a > b:
                    b = round(n) + 2
        lo.append(int(a))
        hi.append(int(b))
    return np.array(lo), np.array(hi)


def sine(days, tmin, tmax, tmean, lo, hi, method, night=False):
    prev, nxt = neighbours(days)
    n = len(days)
    out = np.full((n, 24), NAN)
    for i in range(n):
        tmin_next = tmin[i] if i == n - 1 else (tmin[nxt[i]] if nxt[i] >= 0 else NAN)
        tmax_prev = tmax[i] if i == 0 else (tmax[prev[i]] if prev[i] >= 0 else NAN)
        a, b = int(lo[i]), int(hi[i])
        for h in range(24):
            if method == 'sine_mean':
                out[i, h] = tmean[i] + (tmax[i] - tmin[i]) / 2 * math.cos(math.pi * (h - b) / 12)
                continue
            low = tmin[i] if h < b else tmin_next
            high = tmax[i] if h >= a else tmax_prev
            if not night:
                c = math.cos(math.pi * (h - b) / 12)
            elif h >= b:
                c = math.cos(math.pi * (h - b) / (24 - (b - a)))
            elif h <= a:
                c = math.cos(math.pi * (h + 24 - b) / (24 - (b - a)))
            else:
                c = math.cos(1.25 * math.pi + 0.75 * math.pi * (h - a) / (b - a))
            out[i, h] = (low + high) / 2 + (high - low) / 2 * c
    return out


def polar(days, course, tmin, tmax, lo, hi, dark):
    """Replaces the course on dark days by straight lines; complete data on consecutive days only."""
    n = len(days)
    v = course.copy()
    for i in range(n):
        if dark[i]:
            v[i, :] = NAN
            p = max(i - 1, 0)
            warmer = (tmin[p] + tmax[p]) / 2 <= (tmin[i] + tmax[i]) / 2
            v[i, 6] = tmin[i] if warmer else tmax[i]
            v[i, 18] = tmax[i] if warmer else tmin[i]
        else:
            if i > 0 and dark[i - 1]:
                v[i, :lo[i]] = NAN
                v[i, lo[i]] = tmin[i]
            if i + 1 < n and dark[i + 1]:
                v[i, hi[i] + 1:] = NAN
    f = v.ravel()
    known = np.flatnonzero(~np.isnan(f))
    if len(known):
        x = np.arange(len(f))
        g = np.interp(x, known, f[known])
        g[:known[0]] = NAN
        f = g
    return f.reshape(n, 24)


def mean_course_temp(days, tmin, tmax, tmean, course, method):
    """course: dict month -> 24 values."""
    out = np.full((len(days), 24), NAN)
    for i, d in enumerate(days):
        c = np.asarray(course[d.month], dtype=float)
        if method == 'mean_course_min_max':
            out[i] = tmin[i] + c * (tmax[i] - tmin[i])
        else:
            out[i] = tmean[i] + (c - c.mean()) * (tmax[i] - tmin[i])
    return out


# --- humidity --------------------------------------------------------------------------------------------


def saturation(t):
    if t != t:
        return NAN
    c = t - 273.15
    if t >= 273.15:
        return 6.112 * math.exp(17.62 * c / (243.12 + c))
    return 6.112 * math.exp(22.46 * c / (272.62 + c))


def dewpoint(t, rh):
    if t != t or rh != rh:
        return NAN
    e = saturation(t) * rh / 100.0
    a, b = (17.62, 243.12) if t >= 273.15 else (22.46, 272.62)
    if not e > 0:
        return NAN
    x = math.log(e / 6.112)
    return b * x / (a - x) + 273.15


def humidity(days, method, d, temp, a0=None, a1=None, kr=None, table=None, keep_mean=False):
    """d: dict of daily arrays; temp: hourly (days x 24). Returns (limited, unlimited)."""
    n = len(days)
    out = np.full((n, 24), NAN)
    for i, day in enumerate(days):
        if method == 'equal':
            out[i, :] = d['hum'][i]
        elif method in ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation'):
            def td(k):
                return d['tmin'][k] if method == 'minimal' else a0 + a1 * d['tmin'][k]
            t0 = td(i)
            t1 = td(i + 1) if i + 1 < n else t0
            for h in range(24):
                t = t0
                if method == 'linear_dewpoint_variation':
                    t = t0 + h / 24.0 * (t1 - t0) + 0.5 * math.sin((h + 1) * math.pi / kr - 0.75 * math.pi)
                out[i, h] = 100 * saturation(t) / saturation(temp[i, h])
        elif method == 'min_max':
            for h in range(24):
                f = (temp[i, h] - d['tmin'][i]) / (d['tmax'][i] - d['tmin'][i])
                out[i, h] = d['hum_max'][i] + f * (d['hum_min'][i] - d['hum_max'][i])
        elif method == 'month_hour_precip_mean':
            wet = bool(d['precip'][i] > 0)
            for h in range(24):
                out[i, h] = table[(day.month, h, wet)]
        if keep_mean:
            known = out[i][~np.isnan(out[i])]
            if len(known) and d['hum'][i] == d['hum'][i]:
                out[i] -= known.mean() - d['hum'][i]
    return np.clip(out, 0, 100), out


# --- radiation --------------------------------------------------------------------------------------------


def scale_radiation(shape, daily):
    """shape: (days x 24) potential values; returns values before small ones are cut."""
    out = np.full(shape.shape, NAN)
    for i in range(len(daily)):
        m = shape[i].mean()
        if daily[i] != daily[i]:
            continue
        out[i] = 0.0 if m == 0 else shape[i] / m * daily[i]
    return out


def bristow_campbell(days, tmin, tmax, pot, A, C):
    """A, C: functions of the month."""
    n = len(days)
    _, nxt = neighbours(days)
    dt = np.full(n, NAN)
    for i in range(n):
        nx = tmin[i] if i == n - 1 else (tmin[nxt[i]] if nxt[i] >= 0 else NAN)
        dt[i] = tmax[i] - (tmin[i] + nx) / 2
    sums = {}
    for d, x in zip(days, dt):
        if x == x:
            s = sums.setdefault(d.month, [0.0, 0])
            s[0] += x
            s[1] += 1
    out = np.full(n, NAN)
    for i, d in enumerate(days):
        if dt[i] != dt[i] or d.month not in sums:
            continue
        B = 0.036 * math.exp(-0.154 * sums[d.month][0] / sums[d.month][1])
        x = np.float64(max(dt[i], 0.0))
        with np.errstate(all='ignore'):  # a fit may arrive at a negative exponent
            out[i] = A(d.month) * (1 - np.exp(-B * x ** C(d.month))) * pot[i]
    return out


def angstroem(days, ssd, length, pot, a, b):
    return np.array([(a(d.month) + b(d.month) * s / l) * p for d, s, l, p in zip(days, ssd, length, pot)])


# --- cascade ----------------------------------------------------------------------------------------------

BOUNDS = [0.0, 0.1429, 0.2857, 0.4286, 0.5714, 0.7143, 0.8571, 1.0]
CENTRES = [b - 1.0 / 14.0 for b in BOUNDS[1:]]
STARTING, ENCLOSED, ENDING, ISOLATED = range(4)


def positions(v):
    """Position class of each wet interval (-1: dry)."""
    n = len(v)
    out = np.full(n, -1)
    for i in range(n):
        if v[i] > 0:
            before = i > 0 and v[i - 1] > 0
            after = i + 1 < n and v[i + 1] > 0
            out[i] = (ENCLOSED if after else ENDING) if before else (STARTING if after else ISOLATED)
    return out


def level_table(stats, level, levels):
    """(p01, p10, pxx, wxx, threshold) for branching level 0.. (0: days) of `levels` levels."""
    k = levels - 1 - level
    if isinstance(stats, (list, tuple)):
        s = stats[k]
        return s.p01, s.p10, s.pxx, s.wxx, float(np.ravel(s.threshold)[0])
    return stats.p01, stats.p10, stats.pxx, stats.wxx, float(stats.threshold[k])


def hourly_from_boxes(box, days):
    """32 boxes of 45 minutes per day to 24 hours."""
    q = np.repeat(np.asarray(box, float).reshape(days, 32) / 3.0, 3, axis=1)
    return q.reshape(days, 24, 4).sum(axis=2)


def five_minutes_from_boxes(box, days):
    """2**k boxes per day to 288 five-minute intervals by starting time."""
    b = np.asarray(box, float).reshape(days, -1)
    k = b.shape[1]
    slot = (np.arange(k) * 288) // k
    out = np.zeros((days, 288))
    for i in range(k):
        out[:, slot[i]] += b[:, i]
    return out


def run_deterministic(daily, stats, levels):
    """Cascade with sure outcomes: arrays of all levels."""
    v = np.where(np.isnan(daily), 0.0, daily)
    out = []
    for lv in range(levels):
        p01, p10, pxx, wxx, thr = level_table(stats, lv, levels)
        pos = positions(v)
        w = np.zeros(2 * len(v))
        for i in range(len(v)):
            if pos[i] < 0:
                continue
            a = 1 if v[i] > thr else 0
            b = pos[i]
            if p01[a, b] == 1:
                w[2 * i + 1] = v[i]
            elif p10[a, b] == 1:
                w[2 * i] = v[i]
            else:
                c = CENTRES[int(np.argmax(wxx[:, a, b]))]
                w[2 * i] = c * v[i]
                w[2 * i + 1] = (1 - c) * v[i]
        out.append(w)
        v = w
    return out


SAMPLE = None  # built-in statistics, taken from the documented defaults of the package at start-up


def percentile(values, q):
    """Linear interpolation between order statistics."""
    s = sorted(values)
    x = (len(s) - 1) * q / 100.0
    k = int(math.floor(x))
    if k >= len(s) - 1:
        return s[-1]
    return s[k] + (s[k + 1] - s[k]) * (x - k)


def calibrate_level(fine, q):
    """Statistics of one aggregation step: dict and coarse series; 'ok' False if a class was not observed."""
    n = len(fine) // 2
    coarse = np.array([fine[2 * i] + fine[2 * i + 1] for i in range(n)])
    wet = coarse[coarse > 0]
    if not len(wet):
        return None, coarse
    thr = percentile(list(wet), q)
    pos = positions(coarse)
    cnt = np.zeros((3, 2, 4))
    w = np.zeros((7, 2, 4))
    ambiguous = False
    for i in range(n):
        if pos[i] < 0:
            continue
        if coarse[i] != thr and abs(coarse[i] - thr) <= 1e-12 * thr:
            ambiguous = True
        a = 1 if coarse[i] > thr else 0
        r1, r2 = fine[2 * i], fine[2 * i + 1]
        if r1 > 0 and r2 > 0:
            cnt[2, a, pos[i]] += 1
            x = r1 / (r1 + r2)
            k = 0
            while x > BOUNDS[k + 1]:
                k += 1
            w[k, a, pos[i]] += 1
        elif r1 > 0:
            cnt[1, a, pos[i]] += 1
        else:
            cnt[0, a, pos[i]] += 1
    tot = cnt.sum(axis=0)
    st = dict(threshold=thr, n=n, ok=bool((tot > 0).all()), ambiguous=ambiguous, tot=tot)
    with np.errstate(all='ignore'):
        p = cnt / tot
        wx = w / cnt[2]
    st['p01'], st['p10'], st['pxx'] = p[0], p[1], p[2]
    st['wxx'] = np.where(np.isnan(wx), 1.0 / 7.0, wx)
    st['wnan'] = bool(np.isnan(wx).any())
    return st, coarse


# --- aggregation ------------------------------------------------------------------------------------------


def group_by_day(stamps_us, values):
    """dict day ordinal -> list of non-missing values, and set of all days present."""
    g = {}
    for t, v in zip(stamps_us // DAY_US, values):
        l = g.setdefault(int(t), [])
        if v == v:
            l.append(float(v))
    return g


def arr(x):
    return np.asarray(x, dtype=float)


def cols(df, names):
    return {c: arr(df[c]) for c in names if c in df}


def ts_us(idx):
    return pd.DatetimeIndex(idx).values.astype('datetime64[us]').astype('int64')
