"""DWD and KNMI files are read with right time stamps, units and columns."""
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import common, norm, ref
from ..snap import digest

ID = 'C24'
N = dict(quick=1500, thorough=15000)
RULE = ('seeded station files of both services are composed in a scratch directory and read; header, columns, time stamps and every value '
        'are compared with what was put in; distinct by file content')
REQUIRED = ['dwd daily', 'dwd hourly', 'dwd joined', 'dwd missing', 'closing line', 'no closing line', 'dwd different times', 'unknown columns',
            'knmi file', 'knmi directory', 'knmi trace', 'knmi sunshine trace', 'knmi missing', 'knmi hour 24', 'knmi several files', 'knmi many files', 'minutes in time stamp', 'dwd padded']

DAILY = [('tmean', 'LUFTTEMPERATUR', 273.15), ('tmin', 'LUFTTEMPERATUR_MINIMUM', 273.15), ('tmax', 'LUFTTEMPERATUR_MAXIMUM', 273.15),
         ('precip', 'NIEDERSCHLAGSHOEHE', 0), ('glob', 'GLOBAL_KW_J', 0), ('hum', 'REL_FEUCHTE', 0), ('wind', 'WINDGESCHWINDIGKEIT', 0),
         ('sun_h', 'SONNENSCHEINDAUER', 0)]
OTHER = ['QUALITAETS_NIVEAU', 'DAMPFDRUCK', 'BEDECKUNGSGRAD', 'STRUKTUR_VERSION']


def metadata(g, f):
    n = g.i(1, 3)
    lines = [g.pick(['Stations_id;Stationshoehe; Geogr.Breite; Geogr.Laenge;von_datum;bis_datum;Stationsname',
                     'Stations_id ;Stationshoehe;Geogr.Breite;Geogr.Laenge;von_datum;bis_datum; Stationsname '])]
    for i in range(n):
        lines.append('%d;%d;%.4f;%.4f;19010101;20151231;%s' % (44 + i, 100 + i, 47.5 + i / 8, 10.25 + i / 8, 'Station %d' % i))
    with open(f, 'w') as o:
        o.write('\n'.join(lines) + '\n')
    i = n - 1
    return dict(Stations_id=44 + i, Stationsname='Station %d' % i, Breite=47.5 + i / 8, Laenge=10.25 + i / 8)


def dwd_file(g, m, f, columns, stamps, closing, fmt):
    """columns: [(name, DWD name, offset)]; returns expected values {name: array}."""
    n = len(stamps)
    cols = list(columns) + [(None, c, 0) for c in OTHER if g.chance(0.4)]
    cols = [cols[i] for i in g.r.permutation(len(cols))]
    if any(c[0] is None for c in cols):
        m.tag('unknown columns')
    pad = g.chance(0.5)
    if pad:
        m.tag('dwd padded')
    data, want = [], {}
    for name, _, off in cols:
        v = np.round(g.r.uniform(-20, 80, n), 1)
        miss = g.r.random_sample(n) < g.pick([0, 0.1, 0.4])
        if miss.any() and name:
            m.tag('dwd missing')
        data.append([('%8s' if pad else '%s') % (g.pick(['-999', '-999']) if k else '%.1f' % x) for x, k in zip(v, miss)])
        if name:
            want[name] = np.where(miss, np.nan, v + off)
    lines = ['STATIONS_ID; MESS_DATUM;' + ';'.join(' ' * g.i(0, 3) + c[1] for c in cols) + ';eor']
    for i, t in enumerate(stamps):
        lines.append(';'.join(['%11d' % 44, t.strftime(fmt)] + [d[i] for d in data] + ['eor']))
    if closing:
        lines.append(g.pick(['\x1a', 'generiert: 01.01.2016 --  Deutscher Wetterdienst  --']))
    with open(f, 'w') as o:
        o.write('\n'.join(lines) + '\n')
    return want


def dwd(g, m, tmp):
    import melodist
    meta = os.path.join(tmp, 'meta.txt')
    head = metadata(g, meta)
    closing = g.chance(0.5)
    kw = {}
    if not closing or g.chance(0.3):
        kw['skip_last'] = closing
    m.tag('closing line' if closing else 'no closing line')
    if g.chance(0.5):
        idx = g.days(lo=2, hi=40)
        cols = [c for c in DAILY if g.chance(0.75)] or DAILY[:2]
        f = os.path.join(tmp, 'd.txt')
        want = pd.DataFrame(dwd_file(g, m, f, cols, idx, closing, '%Y%m%d'), index=idx)
        if g.chance(0.5):
            kw['mode'] = 'd'
        header, data = melodist.read_dwd(f, meta, **kw)
        m.tag('dwd daily')
    else:
        base = pd.date_range(g.start() + pd.Timedelta(hours=g.i(0, 23)), periods=g.i(3, 80), freq='h')
        fmt = g.pick(['%Y%m%d%H', '%Y%m%d%H:%M'])
        if ':' in fmt:
            m.tag('minutes in time stamp')
        sets = [[DAILY[0], DAILY[5]], [DAILY[3]], [DAILY[6]], [DAILY[7]]]
        k = g.pick([1, 2, 3, 3, 4])
        files, parts = [], []
        for i in g.r.permutation(4)[:k]:
            s = base
            if g.chance(0.5):
                s = base[g.r.random_sample(len(base)) < 0.8]
                if len(s) < 2:
                    s = base
            f = os.path.join(tmp, 'h%d.txt' % i)
            parts.append(pd.DataFrame(dwd_file(g, m, f, sets[i], s, closing, fmt), index=s))
            files.append(f)
        if len({tuple(p.index) for p in parts}) > 1:
            m.tag('dwd different times')
        times = sorted(set().union(*[set(p.index) for p in parts]))
        want = pd.concat([p.reindex(times) for p in parts], axis=1)
        want.index = pd.DatetimeIndex(times)
        one = k == 1 and g.chance(0.6)
        header, data = melodist.read_dwd(files[0] if one else files, meta, 'h', **kw)
        m.tag('dwd hourly')
        if k > 1:
            m.tag('dwd joined')
        if 'temp' in data.columns and 'temp' not in want:
            want = want.rename(columns=dict(tmean='temp'))
    same(m, data, want, 'DWD')
    for k, v in head.items():
        m.check(str(header.get(k)).strip() == str(v), 'header entry %s: %r instead of %r' % (k, header.get(k), v))
    m.judged(digest(want), n=int(want.size), sample=common.describe(columns=list(want.columns), rows=len(want), first=want.index[0]))


def same(m, got, want, what):
    m.check(sorted(got.columns) == sorted(want.columns), '%s: columns %r instead of %r' % (what, list(got.columns), list(want.columns)))
    m.check(len(got) == len(want) and (ref.ts_us(got.index) == ref.ts_us(want.index)).all(), '%s: time stamps differ' % what, got=got.index, want=want.index)
    for c in want.columns:
        m.close(norm.values(got[c]), norm.values(want[c]), '%s: %s' % (what, c), rtol=1e-9, atol=1e-9, index=want.index)


KNMI = ['DD', 'FH', 'FF', 'FX', 'T', 'T10', 'TD', 'SQ', 'Q', 'DR', 'RH', 'P', 'VV', 'N', 'U', 'WW', 'IX']


def knmi_file(g, m, f, first, days):
    lines = ['# header line %d' % i for i in range(30)] + ['']
    lines[0] = 'BRON: KONINKLIJK NEDERLANDS METEOROLOGISCH INSTITUUT (KNMI)'
    if g.chance(0.5):
        lines[30] = '# last header line'
    lines.append('# STN,YYYYMMDD,   HH,   ' + ',   '.join(KNMI))
    if g.chance(0.7):
        lines.append('')
    rows, idx = [], []
    p = g.pick([0, 0.1, 0.3])
    for d in range(days):
        t = first + pd.Timedelta(days=d)
        for h in range(1, 25):
            r = dict(T=g.i(-150, 320), RH=g.pick([0, 0, 0, -1, g.i(1, 200)]), Q=g.i(0, 320), U=g.i(20, 100), FH=g.pick([10 * g.i(0, 25), g.i(0, 250)]), SQ=g.pick([-1, 0, g.i(0, 10), g.i(0, 10)]))
            r = {k: None if g.chance(p) else v for k, v in r.items()}
            rows.append(r)
            idx.append(t + pd.Timedelta(hours=h))
            if r['RH'] == -1:
                m.tag('knmi trace')
            if r['SQ'] == -1:
                m.tag('knmi sunshine trace')
            if None in r.values():
                m.tag('knmi missing')
            vals = ['%5s' % ('' if r.get(c) is None and c in r else r.get(c, g.i(0, 9))) for c in KNMI]
            lines.append('%5d,%s,%5d,%s' % (260, t.strftime('%Y%m%d'), h, ','.join(vals)))
    m.tag('knmi hour 24')
    with open(f, 'w') as o:
        o.write('\n'.join(lines) + '\n')

    def col(k, fn):
        return [np.nan if r[k] is None else fn(r[k]) for r in rows]
    return pd.DataFrame(dict(temp=col('T', lambda x: x / 10 + 273.15), precip=col('RH', lambda x: max(x, 0) / 10), glob=col('Q', lambda x: x * 10000 / 3600.0),
                             hum=col('U', float), wind=col('FH', lambda x: x / 10), ssd=col('SQ', lambda x: max(x, 0) * 6.0)), index=pd.DatetimeIndex(idx))


def knmi(g, m, tmp):
    import melodist
    if g.chance(0.5):
        f = os.path.join(tmp, 'uurgeg.txt')
        want = knmi_file(g, m, f, g.start(), g.i(1, 6))
        data = melodist.read_single_knmi_file(f)
        m.tag('knmi file')
    else:
        k = g.i(11, 14) if g.chance(0.1) else g.i(1, 4)
        t = g.start()
        parts = []
        names = ['uurgeg_%d.txt' % i for i in range(k)]
        names = [names[i] for i in g.r.permutation(k)]
        for n in names:
            days = g.i(1, 3)
            parts.append(knmi_file(g, m, os.path.join(tmp, n), t, days))
            t = t + pd.Timedelta(days=days + g.pick([0, 0, 3]))
        want = pd.concat(parts)
        data = melodist.read_knmi_dataset(tmp + os.sep)
        m.tag('knmi directory')
        if k > 1:
            m.tag('knmi several files')
            m.tag('knmi many files', int(k > 10))
    same(m, data, want, 'KNMI')
    m.judged(digest(want), n=int(want.size), sample=common.describe(first=want.index[0], rows=len(want)))


def case(g, m):
    tmp = tempfile.mkdtemp(prefix='files-')
    try:
        (dwd if g.chance(0.6) else knmi)(g, m, tmp)
    finally:
        shutil.rmtree(tmp)
