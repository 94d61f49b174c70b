"""C23: DWD and KNMI files."""
import contextlib
import io
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from ..common import NAN, expect, expect_index
from ..repo import melodist

RULE = ('choice = values of the records, columns, record times, last-line handling, split of the records into '
        'files and order of the directory listing; table compared with the records written')
BOUNDS = dict(dwd='all subsets of 8 columns, 6 value classes per column, 1..3 hourly files, padded fields',
              knmi='8 value classes per column, all hours, year ends',
              listing='all permutations of up to 4 files (thorough 5), all compositions of the records')
ASSUMPTIONS = ['files of one data set do not overlap in time']


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='mc-c23-')
    try:
        yield d
    finally:
        shutil.rmtree(d)


# ---- DWD -------------------------------------------------------------------------------------
DWD = dict(LUFTTEMPERATUR='tmean', LUFTTEMPERATUR_MINIMUM='tmin', LUFTTEMPERATUR_MAXIMUM='tmax',
           NIEDERSCHLAGSHOEHE='precip', GLOBAL_KW_J='glob', REL_FEUCHTE='hum', WINDGESCHWINDIGKEIT='wind',
           SONNENSCHEINDAUER='sun_h')
KELVIN = ('tmean', 'tmin', 'tmax')
META = ('Stations_id; Stationshoehe;Geogr.Breite; Geogr.Laenge;von_datum;bis_datum;Stationsname\n'
        '1048; 112;51.10;13.70;19340701;19630930;Dresden-Alt\n'
        '1048; 222;51.13;13.75;19630930;;Dresden-Klotzsche\n')


def write_dwd(f, stamps, cols, rows, last='eof', pad=False, newline=True):
    names = ['STATIONS_ID', ' MESS_DATUM', ' QUALITAETS_NIVEAU'] + [' ' + c for c in cols] + ['eor']
    lines = [';'.join(names)]
    for s, r in zip(stamps, rows):
        vals = ['%8s' % v if pad else '%s' % v for v in r]
        lines.append(';'.join(['1048', s, '3'] + vals + ['eor']))
    if last is not None:
        lines.append(last)
    with open(f, 'w') as g:
        g.write('\n'.join(lines) + ('\n' if newline else ''))


def expected(cols, rows):
    out = {}
    for k, c in enumerate(cols):
        if c in DWD:
            v = np.array([NAN if float(r[k]) == -999 else float(r[k]) for r in rows])
            out[DWD[c]] = v + 273.15 if DWD[c] in KELVIN else v
    return out


def compare(ctx, header, data, cols, rows, index):
    want = expected(cols, rows)
    ctx.check(set(data.columns) == set(want), 'columns %s, expected %s', sorted(data.columns), sorted(want))
    expect_index(ctx, data.index, index, 'time stamps')
    for c in want:
        expect(ctx, data[c].to_numpy(dtype=float), want[c], c, index=index)
    ctx.check(int(header['Stations_id']) == 1048 and header['Stationsname'] == 'Dresden-Klotzsche'
              and float(header['Breite']) == 51.13 and float(header['Laenge']) == 13.75,
              'header %s', header)
    ctx.observe(data)


VALS = [['1.5', '-999', '0.0', '-3.2', '12', '-0.1', '-99', '-9', '-99.9', '9999'], ['-999', '7.25', '100', '0', '-999', '3.3'],
        ['0.0', '-17.9', '-999', '5', '999', '1']]


def scen_dwd_daily(ctx):
    cols = [c for c in DWD if not ctx.choose(2, 'without ' + c)] + ['DAMPFDRUCK']
    skip = not ctx.choose(2, 'no last line')
    rot = ctx.choose(3, 'values')
    days_ = [['20151231', '20160101', '20160102'], ['20160228', '20160229', '20160301']][len(cols) % 2]
    rows = [[VALS[(k + rot) % 3][(i + k) % 6] for i in range(len(cols))] for k in range(3)]
    with scratch() as d:
        f, m = os.path.join(d, 'p.txt'), os.path.join(d, 'm.txt')
        write_dwd(f, days_, cols, rows, last='\x1a' if skip else None)
        with open(m, 'w') as g:
            g.write(META)
        header, data = melodist.read_dwd(f, m, mode='d', skip_last=skip)
    compare(ctx, header, data, cols, rows, pd.DatetimeIndex(days_))


def scen_dwd_values(ctx):
    mode = ctx.pick(['d', 'h'], 'mode')
    pad = bool(ctx.choose(2, 'padded'))
    skip = not ctx.choose(2, 'keep last')
    newline = not ctx.choose(2, 'no newline at the end')
    n = ctx.pick([1, 2, 3, 50], 'records')
    cols = ['LUFTTEMPERATUR', 'REL_FEUCHTE', 'OTHER']
    rows = []
    for i in range(n):
        if i < 2:
            rows.append([ctx.pick(VALS[0], 'temperature'), VALS[1][i], '5'])
        else:
            rows.append([VALS[2][i % 6], VALS[1][i % 6], '-999'])
    base = pd.Timestamp('2015-12-30 21:00') if mode == 'h' else pd.Timestamp('2015-12-30')
    idx = pd.date_range(base, periods=n, freq='h' if mode == 'h' else 'D')
    stamps = [t.strftime('%Y%m%d%H' if mode == 'h' else '%Y%m%d') for t in idx]
    with scratch() as d:
        f, m = os.path.join(d, 'p.txt'), os.path.join(d, 'm.txt')
        write_dwd(f, stamps, cols, rows, last='eof' if skip else None, pad=pad, newline=newline)
        with open(m, 'w') as g:
            g.write(META)
        header, data = melodist.read_dwd(f, m, mode=mode, skip_last=skip)
        if skip:
            header2, data2 = melodist.read_dwd(f, m, mode=mode)      # the default
            ctx.check(data2.equals(data), 'last line is not dropped by default')
    compare(ctx, header, data, cols, rows, idx)


def scen_dwd_list(ctx):
    """Several files of the same station, merged column-wise; records may be absent in some of them."""
    mode = ctx.pick(['h', 'd'], 'mode')
    perm = ctx.pick(list(itertools.permutations(range(3))), 'order of the list')
    num = ctx.pick([3, 2, 1], 'files')
    keep = [[not ctx.choose(2, 'absent') for _ in range(3)] for _ in range(2)] + [[True, True, True]]
    skip = bool(sum(keep[0]) % 2)
    sets = [['LUFTTEMPERATUR', 'REL_FEUCHTE'], ['NIEDERSCHLAGSHOEHE'], ['WINDGESCHWINDIGKEIT', 'X']]
    idx = pd.date_range('2016-02-28 23:00', periods=3, freq='h') if mode == 'h' else \
        pd.date_range('2016-02-28', periods=3, freq='D')
    fmt = '%Y%m%d%H' if mode == 'h' else '%Y%m%d'
    use = [k for k in perm if k < num]
    if any(not any(keep[k]) for k in use):
        return
    want = {}
    with scratch() as d:
        names = []
        for k in range(3):
            sel = [i for i in range(3) if keep[k][i]]
            rows = [[VALS[i][(k + c) % 6] for c in range(len(sets[k]))] for i in sel]
            f = os.path.join(d, 'f%d.txt' % k)
            write_dwd(f, [idx[i].strftime(fmt) for i in sel], sets[k], rows, last='eof' if skip else None)
            names.append(f)
            if k in use:
                for c, v in expected(sets[k], rows).items():
                    want[c] = pd.Series(v, index=idx[sel])
        m = os.path.join(d, 'm')
        with open(m, 'w') as g:
            g.write(META)
        header, data = melodist.read_dwd([names[k] for k in use], m, mode=mode, skip_last=skip)
    union = idx[[any(keep[k][i] for k in use) for i in range(3)]]
    expect_index(ctx, data.index, union, 'time stamps')
    ctx.check(set(data.columns) == set(want), 'columns %s, expected %s', sorted(data.columns), sorted(want))
    for c in want:
        expect(ctx, data[c].to_numpy(dtype=float), want[c].reindex(union), c)
    ctx.observe(data)


def scen_dwd_meta(ctx):
    """The header comes from the last entry of the metadata file."""
    n = ctx.pick([1, 2, 3, 5], 'entries')
    lines = ['Stations_id ; Stationshoehe;Geogr.Breite; Geogr.Laenge;von_datum; bis_datum;Stationsname']
    for i in range(n):
        lines.append('%d;%d;%g;%g;1990;2000;Name %d' % (44 + i, 100 + i, 50 + i / 8.0, 8 + i / 4.0, i))
    with scratch() as d:
        f, m = os.path.join(d, 'p'), os.path.join(d, 'm')
        write_dwd(f, ['20160101'], ['LUFTTEMPERATUR'], [['1']])
        with open(m, 'w') as g:
            g.write('\n'.join(lines) + '\n')
        h, data = melodist.read_dwd(f, m)
    k = n - 1
    ctx.check(int(h['Stations_id']) == 44 + k and h['Stationsname'] == 'Name %d' % k
              and float(h['Breite']) == 50 + k / 8.0 and float(h['Laenge']) == 8 + k / 4.0, 'header %s', h)
    ctx.observe(n)


# ---- KNMI ------------------------------------------------------------------------------------
COLS = ['DD', 'FH', 'FF', 'T', 'SQ', 'Q', 'RH', 'U']


def write_knmi(f, recs):
    with open(f, 'w') as g:
        for i in range(31):
            g.write('# BRON: line %d, with commas, T, RH\r\n' % i if i % 2 else '# \n')
        g.write('# STN,YYYYMMDD,   HH, ' + ', '.join('%4s' % c for c in COLS) + '\n\n')
        for date, hh, r in recs:
            g.write('  260,%s,%5d,' % (date, hh)
                    + ','.join('%5s' % ('' if r[c] is None else r[c]) for c in COLS) + '\n')


def stamp(date, hh):
    return pd.Timestamp(date) + pd.Timedelta(hours=hh)


def knmi_expected(recs):
    def f(x):
        return NAN if x is None else float(x)
    rows = []
    for date, hh, r in recs:
        rows.append(dict(temp=f(r['T']) / 10 + 273.15,
                         precip=f(r['RH']) / 10 if r['RH'] is None or r['RH'] >= 0 else 0.0,
                         glob=f(r['Q']) * 10000 / 3600, hum=f(r['U']), wind=f(r['FH']) / 10,
                         ssd=f(r['SQ']) * 6 if r['SQ'] is None or r['SQ'] >= 0 else 0.0))
    return pd.DataFrame(rows, index=pd.DatetimeIndex([stamp(a, b) for a, b, _ in recs]))


def record(k):
    return dict(DD=10 * k, FH=10 + k * 7, FF=20, T=15 * k - 40, SQ=k % 11, Q=k * 13, RH=(k * 3) % 8 - 1,
                U=40 + k % 60)


def same(ctx, got, want, what):
    ctx.check(set(got.columns) == set(want.columns), '%s: columns %s', what, list(got.columns))
    expect_index(ctx, got.index, want.index, what)
    for c in want:
        expect(ctx, got[c].to_numpy(dtype=float), want[c], '%s: %s' % (what, c), index=want.index)
    ctx.observe(got)


def scen_knmi_values(ctx):
    col = ctx.pick(['T', 'RH', 'Q', 'U', 'FH', 'SQ', 'DD'], 'column')
    words = [ctx.pick([None, -1, 0, 1, 10, 123, -105, 3600], 'value') for _ in range(2)]
    if col in ('Q', 'U', 'FH') and any(w is not None and w < 0 for w in words):
        return
    recs = [('20151231', 23, record(3)), ('20151231', 24, record(4)), ('20160101', 1, record(5))]
    for k, w in enumerate(words):
        recs[k][2][col] = w
    with scratch() as d:
        f = os.path.join(d, 'uurgeg_260_2011-2020.txt')
        write_knmi(f, recs)
        got = melodist.read_single_knmi_file(f)
    same(ctx, got, knmi_expected(recs), 'values')


def scen_knmi_hours(ctx):
    date = ctx.pick(['20151231', '20160228', '20160229', '20170228', '20160331'], 'date')
    first = ctx.choose(24, 'first hour') + 1
    recs = [(date, h, record(h)) for h in range(first, 25)]
    nxt = (pd.Timestamp(date) + pd.Timedelta(days=1)).strftime('%Y%m%d')
    recs += [(nxt, h, record(h + 5)) for h in range(1, 4)]
    with scratch() as d:
        f = os.path.join(d, 'x.txt')
        write_knmi(f, recs)
        got = melodist.read_single_knmi_file(f)
    want = knmi_expected(recs)
    same(ctx, got, want, 'hours')
    ctx.check((got.index[1:] - got.index[:-1] == pd.Timedelta(hours=1)).all(), 'hours are not consecutive')


def scen_rewritten(ctx):
    """Files that are replaced under the same names are read again."""
    mode = ctx.pick(['d', 'h'], 'mode')
    change = ctx.pick(['values', 'times', 'more', 'fewer', 'metadata'], 'change')
    cols = ['LUFTTEMPERATUR', 'REL_FEUCHTE']
    rows = [[VALS[0][i], VALS[1][(i + 1) % 6]] for i in range(4)]
    first = pd.Timestamp('2016-02-28 22:00' if mode == 'h' else '2016-02-27')
    idx = pd.date_range(first, periods=4, freq='h' if mode == 'h' else 'D')
    fmt = '%Y%m%d%H' if mode == 'h' else '%Y%m%d'
    steps = [(idx[:3], rows[:3], META)]
    steps.append({'values': (idx[:3], rows[1:], META), 'times': (idx[1:], rows[:3], META), 'more': (idx, rows, META),
                  'fewer': (idx[:2], rows[:2], META),
                  'metadata': (idx[:3], rows[:3], META.replace('Klotzsche', 'Other').replace('51.13', '52.25'))}[change])
    steps.append(steps[0])
    recs = [('20160228', h, record(h)) for h in (1, 2, 24)]
    knmi = [recs, [(a, b, record(b + 5)) for a, b, _ in recs] if change in ('values', 'metadata') else
            recs[:2] if change == 'fewer' else recs + [('20160229', 1, record(9))], recs]
    with scratch() as d:
        f, m = os.path.join(d, 'p.txt'), os.path.join(d, 'm')
        k = os.path.join(d, 'knmi')
        os.mkdir(k)
        for (i, r, meta), rec in zip(steps, knmi):
            write_dwd(f, [t.strftime(fmt) for t in i], cols, r)
            with open(m, 'w') as g:
                g.write(meta)
            header, data = melodist.read_dwd(f, m, mode=mode)
            expect_index(ctx, data.index, i, 'time stamps')
            for c, v in expected(cols, r).items():
                expect(ctx, data[c].to_numpy(dtype=float), v, c, index=i)
            last = meta.strip().split('\n')[-1].split(';')
            ctx.check(header['Stationsname'] == last[6] and float(header['Breite']) == float(last[2]), 'header %s',
                      header)
            data.iloc[:] = -1.0
            data.columns = list(range(data.shape[1]))
            header.clear()
            write_knmi(os.path.join(k, 'a.txt'), rec)
            one = melodist.read_single_knmi_file(os.path.join(k, 'a.txt'))
            same(ctx, one, knmi_expected(rec), 'single file')
            one.iloc[:] = -1.0
            with contextlib.redirect_stdout(io.StringIO()):
                got = melodist.read_knmi_dataset(k + os.sep)
            same(ctx, got, knmi_expected(rec), 'data set')


class Listing:
    """Answers directory listings in a given order."""

    def __init__(self, perm):
        self.perm = perm

    def order(self, items, key):
        items = sorted(items, key=key)
        txt = [x for x in items if key(x).endswith('.txt')]
        rest = [x for x in items if not key(x).endswith('.txt')]
        if len(txt) == len(self.perm):
            txt = [txt[k] for k in self.perm]
        return rest[:1] + txt + rest[1:]

    def __enter__(self):
        self.old = os.scandir, os.listdir
        scandir, listdir = self.old
        outer = self

        class Scan:
            def __init__(self, it):
                with it:
                    self.items = outer.order(list(it), lambda e: os.fsdecode(e.name))
                self.it = iter(self.items)

            def __enter__(self):
                return self

            def __exit__(self, *a):
                pass

            def __iter__(self):
                return self

            def __next__(self):
                return next(self.it)

            def close(self):
                pass

        os.scandir = lambda *a, **k: Scan(scandir(*a, **k))
        os.listdir = lambda *a, **k: outer.order(listdir(*a, **k), os.fsdecode)
        return self

    def __exit__(self, *a):
        os.scandir, os.listdir = self.old


def scen_knmi_dataset(ctx):
    n = ctx.pick([1, 2, 3, 4] + ([5] if ctx.tier == 'thorough' else []), 'files')
    perm = ctx.pick(list(itertools.permutations(range(n))), 'order of the listing')
    naming = ctx.pick(['chronological', 'reversed', 'mixed'], 'file names')
    names = {'chronological': ['uurgeg_260_%d-%d.txt' % (1951 + 10 * k, 1960 + 10 * k) for k in range(n)],
             'reversed': ['f%d.txt' % (9 - k) for k in range(n)],
             'mixed': ['%s.txt' % 'cabed'[k] for k in range(n)]}[naming]
    recs = [('2015%02d01' % (12 - n + 1 + k), h, record(k * 7 + h)) for k in range(n) for h in (1, 2, 24)]
    with scratch() as d:
        for k in range(n):
            write_knmi(os.path.join(d, names[k]), recs[3 * k:3 * k + 3])
        with open(os.path.join(d, 'readme.md'), 'w') as g:
            g.write('not data\n')
        with Listing(perm), contextlib.redirect_stdout(io.StringIO()):
            got = melodist.read_knmi_dataset(d + os.sep)
    same(ctx, got, knmi_expected(recs), 'data set')


def scen_knmi_many(ctx):
    """More files than digits: 12 or 25 of them, a single record each."""
    n = ctx.pick([12, 25], 'files')
    order = ctx.pick([1, 5, 7, -1], 'order of the listing')
    perm = list(range(n))[::-1] if order < 0 else [(order * k) % n if n % order else k for k in range(n)]
    width = ctx.pick([1, 3], 'width of the numbers in the names')
    recs = [('20160229', h, record(h)) if h < 25 else ('20160301', 1, record(3)) for h in range(1, n + 1)]
    with scratch() as d:
        for k in range(n):
            write_knmi(os.path.join(d, 'part%0*d.txt' % (width, k)), recs[k:k + 1])
        with Listing(perm), contextlib.redirect_stdout(io.StringIO()):
            got = melodist.read_knmi_dataset(d + os.sep)
    same(ctx, got, knmi_expected(recs), 'data set of %d files' % n)


def scen_knmi_split(ctx):
    """Any cut of consecutive records into files gives the same table."""
    total = 6
    recs = []
    t = pd.Timestamp('2015-12-31 22:00')
    for k in range(total):
        u = t + pd.Timedelta(hours=k)
        v = u - pd.Timedelta(hours=1)
        recs.append((v.strftime('%Y%m%d'), v.hour + 1, record(k)))
    empty = ctx.pick([None] + list(range(total)), 'record without any value')
    if empty is not None:
        recs[empty] = recs[empty][:2] + ({c: None for c in COLS},)
    cuts = [k for k in range(1, total) if ctx.choose(2, 'cut')]
    parts = [recs[a:b] for a, b in zip([0] + cuts, cuts + [total])]
    rev = ctx.choose(2, 'reversed listing')
    perm = list(range(len(parts)))[::-1 if rev else 1]
    with scratch() as d:
        for k, p in enumerate(parts):
            write_knmi(os.path.join(d, 'part%02d.txt' % k), p)
        with Listing(perm), contextlib.redirect_stdout(io.StringIO()):
            got = melodist.read_knmi_dataset(d + os.sep)
    same(ctx, got, knmi_expected(recs), 'split data set')


def scen_knmi_overlap(ctx):
    """Files sharing records: every record of every file is a row."""
    shared = ctx.pick([1, 2, 4], 'records in both files')
    perm = ctx.pick([[0, 1], [1, 0]], 'order of the listing')
    recs = [('20160229', h, record(h)) for h in range(19, 25)]
    half = (len(recs) + shared) // 2
    parts = [recs[:half], recs[half - shared:]]
    with scratch() as d:
        for k, p in enumerate(parts):
            write_knmi(os.path.join(d, 'part%d.txt' % k), p)
        with Listing(perm), contextlib.redirect_stdout(io.StringIO()):
            got = melodist.read_knmi_dataset(d + os.sep)
    rows = sorted(parts[0] + parts[1], key=lambda r: r[:2])
    same(ctx, got, knmi_expected(rows), 'overlapping files')


def scenarios(tier):
    return [('dwd-daily', scen_dwd_daily), ('dwd-values', scen_dwd_values), ('dwd-list', scen_dwd_list),
            ('dwd-meta', scen_dwd_meta), ('rewritten', scen_rewritten), ('knmi-values', scen_knmi_values), ('knmi-hours', scen_knmi_hours),
            ('knmi-dataset', scen_knmi_dataset), ('knmi-split', scen_knmi_split),
            ('knmi-many', scen_knmi_many), ('knmi-overlap', scen_knmi_overlap)]
