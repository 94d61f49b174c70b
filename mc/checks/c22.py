"""C22: SMET files written can be read back unchanged."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from ..common import NAN, days, expect, expect_index, hours
from ..repo import melodist

RULE = ('choice = columns, their order, values, missing pattern, mode, options, header; the table read is '
        'compared value by value with the table written')
BOUNDS = dict(columns='all subsets of the 7 daily and 5 hourly variables, all orders of 3 (thorough 4)',
              missing='all patterns of 3 rows x 3 columns incl. empty columns and rows',
              multipliers='all words of 3 multipliers over 4 values', rows='1..3, 2000')
ASSUMPTIONS = ['values are given with two decimals, missing values as -999']

DAILY = ['tmean', 'tmin', 'tmax', 'precip', 'glob', 'hum', 'wind']
HOURLY = ['temp', 'precip', 'glob', 'hum', 'wind']
SMET = dict(tmean='TA', temp='TA', tmin='TMIN', tmax='TMAX', precip='PSUM', glob='ISWR', hum='RH', wind='VW')


def table(cols, n, mode, start='2015-12-30'):
    idx = days(start, n) if mode == 'd' else hours(start + ' 22:00', n)
    i = np.arange(n)
    return pd.DataFrame({c: 250.0 + 10.0 * k + 1.23 * i for k, c in enumerate(cols)}, index=idx)[list(cols)]


def trip(ctx, df, mode, meta=None, check_nan=True):
    meta = dict(meta or {})
    given = dict(meta)
    d = tempfile.mkdtemp(prefix='mc-c22-')
    try:
        f = os.path.join(d, 'x.smet')
        before = df.copy()
        melodist.write_smet(f, df, meta, mode=mode, check_nan=check_nan)
        ctx.check(df.equals(before) and list(df.columns) == list(before.columns), 'writing changed the table')
        with open(f) as g:
            lines = g.read().split('\n')
        header, got = melodist.read_smet(f, mode)
    finally:
        shutil.rmtree(d)
    want = df.dropna(axis=1, how='all') if check_nan else df
    ctx.check(lines[0].startswith('SMET') and '[HEADER]' in lines and '[DATA]' in lines, 'not a SMET file')
    ctx.check(len([x for x in lines[lines.index('[DATA]') + 1:] if x.strip()]) == len(df),
              'number of data lines')
    ctx.check(set(got.columns) == set(want.columns) and got.shape[1] == want.shape[1],
              'columns %s, expected %s', list(got.columns), list(want.columns))
    expect_index(ctx, got.index, df.index, 'time stamps')
    for c in want:
        v = want[c].to_numpy(dtype=float)
        expect(ctx, got[c].to_numpy(dtype=float), v, 'column %s' % c, rtol=0, atol=0.00500001)
        r = np.round(v, 2)
        expect(ctx, np.round(got[c].to_numpy(dtype=float), 2), got[c], 'two decimals of %s' % c)
        ctx.work += len(r)
    for k, v in given.items():
        ctx.check(k in header and header[k] == str(v).strip(), 'header entry %s is %r, was %r', k,
                  header.get(k), v)
    fields = header['fields'].split()
    ctx.check(fields[0] == 'timestamp' and sorted(fields[1:]) == sorted(SMET.get(c, c) for c in want),
              'fields %s', fields)
    ctx.observe(got, sorted(header.items()))
    return header, got


def scen_subsets(ctx):
    mode = ctx.pick(['d', 'h'], 'mode')
    cols = [c for c in (DAILY if mode == 'd' else HOURLY) if not ctx.choose(2, 'without ' + c)]
    if cols:
        trip(ctx, table(cols, 3, mode), mode)


def scen_orders(ctx):
    mode = ctx.pick(['d', 'h'], 'mode')
    n = 4 if ctx.tier == 'thorough' else 3
    left = list(DAILY if mode == 'd' else HOURLY)
    cols = []
    for _ in range(n):
        c = ctx.pick(left, 'column')
        left.remove(c)
        cols.append(c)
    trip(ctx, table(cols, 2, mode), mode)


def scen_missing(ctx):
    mode = ctx.pick(['d', 'h'], 'mode')
    check = not ctx.choose(2, 'keep empty columns')
    cols = ['tmin', 'precip', 'tmax'] if mode == 'd' else ['temp', 'precip', 'hum']
    df = table(cols, 3, mode)
    for i, j in itertools.product(range(3), range(3)):
        if ctx.choose(2, 'missing'):
            df.iloc[i, j] = NAN
    if check and df.isnull().all().all():
        return
    trip(ctx, df, mode, check_nan=check)


VALUES = [0.0, 0.005001, -0.4, 12.345, -45.678, 99999.99, 1367.0, 0.1, 273.15, -0.001, 998.999, 999.0, -998.99,
          1e-9, -1200.5, -999.5, -1000.0, 1234567.89, -99999.0, 0.01, -99.0, -9999.0, -9.0, -1.0, 9999.0]


def scen_values(ctx):
    mode = ctx.pick(['d', 'h'], 'mode')
    cols = ['precip', 'wind']
    df = table(cols, 3, mode)
    for i in range(2):
        df.iloc[i, 0] = ctx.pick(VALUES, 'value')
    df.iloc[2, 1] = NAN
    trip(ctx, df, mode)


HEADERS = [('station_id', 'Obergurgl'), ('station_name', 'Name with blanks'), ('latitude', 46.87),
           ('longitude', -11.02), ('altitude', 1938), ('nodata', -999), ('tz', 1), ('source', 'a=b, c = d'),
           ('Operator', 'upper case'), ('PROJECT', ''),
           ('comment', 'Ärmel; ö # x'), ('remark', 'two  blanks,   three and\ta tab')]


def scen_zero(ctx):
    """Columns of zeros or of one repeated value are data."""
    mode = ctx.pick(['d', 'h'], 'mode')
    check = not ctx.choose(2, 'keep empty columns')
    df = table(['precip', 'glob', 'hum'], 3, mode)
    for c in df:
        v = ctx.pick([None, 0.0, 5.0, -0.001, NAN, 'one'], 'column')
        if v == 'one':
            df[c] = [NAN, 0.0, NAN]
        elif v is not None:
            df[c] = v
    if check and df.isnull().all().all():
        return
    trip(ctx, df, mode, check_nan=check)


def scen_header(ctx):
    meta = {k: v for k, v in HEADERS if not ctx.choose(2, 'without ' + k)}
    mode = 'd' if len(meta) % 2 else 'h'
    trip(ctx, table(['precip', 'hum'], 2, mode), mode, meta)


def scen_rows(ctx):
    mode = ctx.pick(['d', 'h'], 'mode')
    n = ctx.pick([1, 2, 3, 60, 61, 2000], 'rows')
    start = ctx.pick(['2015-12-30', '2016-02-27', '1899-12-30'], 'start')
    trip(ctx, table(DAILY if mode == 'd' else HOURLY, n, mode, start), mode)


def scen_gaps(ctx):
    """Tables with absent rows and other variables keep their rows and names."""
    mode = ctx.pick(['d', 'h'], 'mode')
    df = table((DAILY if mode == 'd' else HOURLY)[:3] + ['ssd', 'other'], 6, mode)
    keep = [not ctx.choose(2, 'absent') for _ in range(6)]
    if any(keep):
        trip(ctx, df[keep], mode)


def scen_minutes(ctx):
    """Sub-hourly time stamps."""
    step = ctx.pick(['5min', '10min', '30min'], 'step')
    n = ctx.pick([1, 5, 13], 'rows')
    df = table(HOURLY, n, 'h')
    df.index = pd.date_range('2016-02-28 23:30', periods=n, freq=step)
    trip(ctx, df, 'h')


def scen_reuse(ctx):
    """One header dictionary for several files with other columns."""
    mode = ctx.pick(['d', 'h'], 'mode')
    first = ctx.pick([['precip'], ['precip', 'hum', 'wind'], ['wind', 'glob']], 'first')
    second = ctx.pick([['hum'], ['glob', 'wind', 'hum', 'precip'], ['wind', 'glob']], 'second')
    d = tempfile.mkdtemp(prefix='mc-c22-')
    try:
        meta = dict(station_id='x')
        out = []
        for k, cols in enumerate((first, second)):
            df = table(cols, 3, mode)
            f = os.path.join(d, '%d.smet' % k)
            melodist.write_smet(f, df, meta, mode=mode)
            out.append((df, f))
        for df, f in out:
            header, got = melodist.read_smet(f, mode)
            ctx.check(list(got.columns) == list(df.columns), 'columns %s, expected %s', list(got.columns),
                      list(df.columns))
            expect(ctx, got, df, 'values', rtol=0, atol=0.0051)
            ctx.check(header['station_id'] == 'x', 'header')
            ctx.observe(got)
        # overwriting a longer file with a shorter one
        df = table(second, 1, mode)
        melodist.write_smet(out[0][1], df, meta, mode=mode)
        header, got = melodist.read_smet(out[0][1], mode)
        expect(ctx, got, df, 'values of the overwritten file', rtol=0, atol=0.0051)
    finally:
        shutil.rmtree(d)


MULT = [1.0, 0.1, -2.0, 100.0, 0.0, 0.001]


def scen_multipliers(ctx):
    """Files of other origin: multipliers and missing values column by column."""
    mode = ctx.pick(['d', 'h'], 'mode')
    names = ctx.pick([['TA', 'PSUM', 'RH'], ['VW', 'TA', 'ISWR'], ['TMIN', 'OTHER', 'TMAX']], 'fields')
    mult = [ctx.pick(MULT, 'multiplier') for _ in range(3)]
    miss = ctx.choose(4, 'missing column')
    rows = [[1.5, 20.0, 3.25], [4.0, -5.0, 0.0]]
    if miss:
        rows[1][miss - 1] = -999
    idx = ['2016-02-29T00:00', '2016-03-01T00:00'] if mode == 'd' else ['2016-02-29T23:00', '2016-03-01T00:00']
    d = tempfile.mkdtemp(prefix='mc-c22-')
    try:
        f = os.path.join(d, 'x.smet')
        with open(f, 'w') as g:
            g.write('SMET 1.1 ASCII\n[HEADER]\nstation_id = abc\nnodata = -999\n')
            g.write('fields = timestamp %s\n' % ' '.join(names))
            g.write('units_multiplier = 1 %s\n[DATA]\n' % ' '.join('%g' % m for m in mult))
            for t, r in zip(idx, rows):
                g.write(t + '   ' + ' '.join('%g' % v for v in r) + '\n')
        header, got = melodist.read_smet(f, mode)
    finally:
        shutil.rmtree(d)
    inv = {v: k for k, v in SMET.items() if k in (DAILY if mode == 'd' else HOURLY)}
    ctx.check(list(got.columns) == [inv.get(c, c) for c in names], 'columns %s', list(got.columns))
    want = [[NAN if v == -999 else v * m for v, m in zip(r, mult)] for r in rows]
    expect(ctx, got, want, 'values')
    expect_index(ctx, got.index, pd.DatetimeIndex(idx), 'time stamps')
    ctx.check(header['station_id'] == 'abc' and header['nodata'] == '-999', 'header')
    ctx.observe(got)


def scenarios(tier):
    return [('subsets', scen_subsets), ('orders', scen_orders), ('missing', scen_missing),
            ('values', scen_values), ('zero', scen_zero), ('header', scen_header), ('rows', scen_rows), ('gaps', scen_gaps),
            ('minutes', scen_minutes), ('reuse', scen_reuse), ('multipliers', scen_multipliers)]
