"""SMET files reproduce the data that was written to them."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import digest

ID = 'C23'
N = dict(quick=2000, thorough=20000)
RULE = ('seeded hourly or daily frames are written to a scratch file and read back, or files with unit multipliers are composed and read; '
        'header, names, time stamps and every value are compared; non-trivial if some value is known; distinct by frame and options')
REQUIRED = ['hourly', 'daily', 'missing values', 'empty column kept', 'empty column omitted', 'other nodata', 'metadata', 'multipliers',
            'other columns', 'integers', 'no nodata entry', 'permuted columns', 'sub-hourly', 'one row', 'composed missing value', 'file content']

HOURLY = dict(temp='TA', precip='PSUM', glob='ISWR', hum='RH', wind='VW')
DAILY = dict(tmean='TA', tmin='TMIN', tmax='TMAX', precip='PSUM', glob='ISWR', hum='RH', wind='VW')


def frame(g, names, idx):
    n = len(idx)
    scale = dict(temp=(275, 8), tmean=(275, 8), tmin=(270, 8), tmax=(285, 8), precip=(1, 4), glob=(150, 100), hum=(60, 20), wind=(3, 2))
    d = {}
    for c in names:
        a, b = scale.get(c, (10, 200))
        d[c] = g.r.normal(a, b, n)
        if g.chance(0.2):
            d[c] = np.round(d[c])
        if g.chance(0.1):
            d[c] = d[c] * g.pick([1e-3, 1e5])
        if g.chance(0.4):
            d[c][g.missing(n, 1.0)] = np.nan
    return pd.DataFrame(d, index=idx)


def same(m, got, want, names, what):
    m.check(sorted(got.columns) == sorted(names), '%s: columns %r instead of %r' % (what, list(got.columns), list(names)))
    m.check(len(got) == len(want) and (ref.ts_us(got.index) == ref.ts_us(want.index)).all(), '%s: time stamps differ' % what, got=got.index, want=want.index)


def content(m, text, df, keep, table):
    """Reads the file without the library."""
    lines = text.split('\n')
    m.check(lines[0].split()[:1] == ['SMET'] and lines[1].strip() == '[HEADER]' and '[DATA]' in lines, 'file lacks its marks', lines=lines[:3])
    k = lines.index('[DATA]')
    head = {a.strip(): b.strip() for a, b in (x.split('=', 1) for x in lines[2:k])}
    fields = head.get('fields', '').split()
    want = ['timestamp'] + [table.get(c, c) for c in keep]
    m.check(fields[:1] == ['timestamp'] and sorted(fields) == sorted(want), 'fields of the file are %r instead of %r' % (fields, want))
    m.check([float(x) for x in head['units_multiplier'].split()] == [1.0] * len(fields), 'multipliers of the file', got=head['units_multiplier'])
    rows = [x.split() for x in lines[k + 1:] if x.strip()]
    m.check(len(rows) == len(df) and all(len(x) == len(fields) for x in rows), 'rows of the file')
    for t, x in zip(df.index, rows):
        m.check(x[0] == t.strftime('%Y-%m-%dT%H:%M'), 'time stamp %s of the file instead of %s' % (x[0], t))
    none = float(head['nodata'])
    for c in keep:
        j = fields.index(table.get(c, c))
        q = np.array([float(x[j]) for x in rows])
        q[q == none] = np.nan
        p = norm.values(df[c])
        ok = (np.isnan(p) & np.isnan(q)) | (np.abs(p - q) <= 0.005 + 1e-9 + 1e-12 * np.abs(p))
        m.check(ok.all(), 'values of %s in the file differ' % c, written=q[~ok][:5].tolist(), given=p[~ok][:5].tolist())
    m.tag('file content')


def written(g, m, f):
    import melodist
    daily = g.chance(0.45)
    names = list(DAILY if daily else HOURLY)
    if g.chance(0.4):
        names = [c for c in names if g.chance(0.6)] or names[:1]
    if g.chance(0.25):
        names.append(g.pick(['ssd', 'TSG', 'snow_depth']))
        m.tag('other columns')
    if g.chance(0.5):
        names = list(g.r.permutation(names))
        m.tag('permuted columns')
    idx = g.days(hi=60)
    if not daily:
        if g.chance(0.2):
            idx = pd.date_range(g.start() + pd.Timedelta(minutes=g.i(0, 1439)), periods=g.i(1, 100), freq=g.pick(['10min', '30min', '5min']))
            m.tag('sub-hourly')
        else:
            idx = pd.date_range(g.start() + pd.Timedelta(hours=g.i(0, 23)), periods=g.i(1, 120), freq='h')
        if g.chance(0.2) and len(idx) > 3:
            idx = pd.DatetimeIndex(list(idx[g.r.random_sample(len(idx)) < 0.7])) if g.chance(0.8) else idx
            if not len(idx):
                return
    df = frame(g, names, idx)
    if g.chance(0.15):
        df[names[0]] = g.i(1, 40)
        m.tag('integers')
    if g.chance(0.3) and len(names) > 1:
        df[names[-1]] = np.nan
    if df.isna().all().all():
        df[names[0]] = 1.5
    nodata = g.pick([-999, -999, -999.0, -777, -9999, 999, -99.5, -1e5, 32767])
    v = df.to_numpy(dtype=float)
    if (np.abs(v - nodata) < 0.02).any():
        return
    kw = {}
    if nodata != -999 or g.chance(0.3):
        kw['nodata_value'] = nodata
    if daily or g.chance(0.5):
        kw['mode'] = 'd' if daily else 'h'
    check = g.chance(0.5)
    if not check or g.chance(0.5):
        kw['check_nan'] = check
    meta = {}
    if g.chance(0.7):
        meta = dict(station_id='DBT%d' % g.i(1, 99), station_name=g.pick(['Innsbruck', 'De Bilt', 'a = b', 'plot #7 north', 'A;B', '12', 'x: [y], "z"', '100%']), latitude=g.u(-90, 90), altitude=g.i(0, 3000), tz=1,
                    source=g.pick(['x y z', 'WSL/SLF (#3)', '-', '1e3']))
        m.tag('metadata')
    melodist.write_smet(f, df, meta, **kw)
    with open(f) as o:
        text = o.read()
    header, back = melodist.read_smet(f, 'd' if daily else 'h')
    keep = [c for c in df.columns if not (check and df[c].isna().all())]
    same(m, back, df, keep, 'file read back')
    for c in keep:
        p, q = norm.values(df[c]), norm.values(back[c])
        m.check((np.isnan(p) == np.isnan(q)).all(), 'missing values of %s differ' % c, nodata=nodata, written=p[np.isnan(p) != np.isnan(q)][:5].tolist(),
                read=q[np.isnan(p) != np.isnan(q)][:5].tolist())
        k = ~np.isnan(p)
        m.check((np.abs(p[k] - q[k]) <= 0.005 + 1e-9 + 1e-12 * np.abs(p[k])).all(), 'values of %s differ' % c, written=p[k][:5].tolist(), read=q[k][:5].tolist())
        if not k.all():
            m.tag('missing values')
        if not k.any():
            m.tag('empty column kept')
    if len(keep) < len(names):
        m.tag('empty column omitted')
    content(m, text, df, keep, DAILY if daily else HOURLY)
    for k, val in meta.items():
        m.check(header.get(k) == str(val), 'header entry %s: %r instead of %r' % (k, header.get(k), str(val)))
    if nodata != -999:
        m.tag('other nodata')
    if len(df) == 1:
        m.tag('one row')
    m.tag('daily' if daily else 'hourly')
    m.judged(digest([df, nodata, daily, check]), n=int(df.size), nontrivial=bool(df.notna().any().any()),
             sample=common.describe(mode='d' if daily else 'h', columns=names, rows=len(df), nodata=nodata, check_nan=check))


def composed(g, m, f):
    """A file from another program, with unit multipliers."""
    import melodist
    daily = g.chance(0.5)
    table = DAILY if daily else HOURLY
    names = [c for c in table if g.chance(0.7)] or list(table)[:2]
    n = g.i(1, 40)
    idx = pd.date_range(g.start(), periods=n, freq='D' if daily else 'h')
    mult = [g.pick([1.0, 0.1, 0.01, 10.0, 2.5]) for _ in names]
    val = np.round(g.r.uniform(g.pick([0.5, -60]), 500, (n, len(names))), 2)
    miss = g.r.random_sample(val.shape) < g.pick([0, 0.1, 0.4])
    nodata = g.pick([None, -999, -777, -9999])
    code = -999 if nodata is None else nodata
    lines = ['SMET 1.1 ASCII', '[HEADER]', 'station_id = X', 'fields = timestamp ' + ' '.join(table[c] for c in names)]
    extra = ['units_multiplier = 1 ' + ' '.join(repr(x) for x in mult), 'altitude = 12']
    if nodata is not None:
        extra.append('nodata = %d' % nodata)
    lines += [extra[i] for i in g.r.permutation(len(extra))] + ['[DATA]']
    sep = g.pick([' ', '\t', '   '])
    for t, row, mi in zip(idx, val, miss):
        lines.append(sep.join([t.strftime('%Y-%m-%dT%H:%M')] + [str(code) if k else '%.2f' % x for x, k in zip(row, mi)]))
    with open(f, 'w') as o:
        o.write('\n'.join(lines) + '\n')
    header, back = melodist.read_smet(f, 'd' if daily else 'h')
    want = pd.DataFrame(np.where(miss, np.nan, val * np.array(mult)), index=idx, columns=names)
    same(m, back, want, names, 'composed file')
    for c in names:
        m.close(norm.values(back[c]), norm.values(want[c]), 'values of %s' % c)
    m.check(header.get('station_id') == 'X' and header.get('altitude') == '12', 'header entries')
    m.tag('multipliers')
    if nodata is None:
        m.tag('no nodata entry')
    if miss.any():
        m.tag('composed missing value')
    m.judged(digest([want, code]), n=int(want.size), sample=common.describe(columns=names, multipliers=mult, rows=n, nodata=nodata))


def case(g, m):
    tmp = tempfile.mkdtemp(prefix='smet-')
    try:
        (written if g.chance(0.7) else composed)(g, m, os.path.join(tmp, 'file.smet'))
    finally:
        shutil.rmtree(tmp)
