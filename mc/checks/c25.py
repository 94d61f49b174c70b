"""C25: gaps are counted and incomplete days dropped exactly."""
import contextlib
import io

import numpy as np
import pandas as pd

from ..common import expect, expect_index, hours
from ..repo import melodist

RULE = ('choice = subset of time stamps, time step, print options, first hour of the day, first and last '
        'record; counts and remaining records compared with a plain recount')
BOUNDS = dict(gaps='all subsets of 9 (thorough 11) time stamps, 5 time steps, long gaps and repeated stamps',
              drop='all 24 definitions of the day x all first and last hours x 1..3 days, absent hours, '
                   'records every 15, 20, 30, 45, 90 minutes')
ASSUMPTIONS = ['a day starts and ends with records at full hours']

STEPS = [('5min', 300), ('h', 3600), ('D', 86400), ('min', 60), ('3h', 10800)]


def scen_gaps(ctx):
    freq, step = ctx.pick(STEPS, 'time step')
    n = 11 if ctx.tier == 'thorough' else 9
    keep = [not ctx.choose(2, 'absent') for _ in range(n)]
    idx = pd.date_range('2016-02-28 22:00', periods=n, freq=freq)[keep]
    pos = [k for k in range(n) if keep[k]]
    want = sum(1 for a, b in zip(pos, pos[1:]) if b - a != 1)
    df = pd.DataFrame(dict(x=np.arange(float(len(idx)))), index=idx)
    for kw in (dict(), dict(print_all=True), dict(print_max=0), dict(print_max=2), dict(verbose=False),
               dict(verbose=False, print_max=1), dict(print_all=True, print_max=1)):
        with contextlib.redirect_stdout(io.StringIO()):
            got = melodist.util.detect_gaps(df, step, **kw)
        ctx.check(got == want, '%s gaps with %s, expected %d', got, kw, want)
    ctx.observe(freq, keep)
    ctx.cover(gaps=want)


def scen_distances(ctx):
    """Any distance different from the time step is a gap: shorter, repeated, several days."""
    freq, step = ctx.pick(STEPS, 'time step')
    dist = [ctx.pick([step, 2 * step, 86400, 86400 + step, 3 * 86400, 0, step // 2, 366 * 86400, step + 1, step + 0.5,
                      -step, -86400], 'distance')
            for _ in range(3)]
    t = [pd.Timestamp('2015-12-31 23:00')]
    for d in dist:
        t.append(t[-1] + pd.Timedelta(seconds=d))
    df = pd.DataFrame(dict(x=0.0), index=pd.DatetimeIndex(t))
    with contextlib.redirect_stdout(io.StringIO()):
        got = melodist.util.detect_gaps(df if ctx.choose(2, 'series') == 0 else df.x, step)
    want = sum(1 for d in dist if d != step)
    ctx.check(got == want, '%s gaps in distances %s with time step %s, expected %d', got, dist, step, want)
    ctx.observe(dist, step)


def scen_long(ctx):
    """Gaps anywhere in long series."""
    n = ctx.pick([3000, 30000], 'records')
    gone = ctx.pick([[], [1], [n - 2], [n // 2], [5, n // 3, n - 2], list(range(10, n, 100))], 'absent records')
    idx = pd.date_range('2014-12-31', periods=n, freq='min').delete(gone)
    with contextlib.redirect_stdout(io.StringIO()):
        got = melodist.util.detect_gaps(pd.DataFrame(dict(x=0.0), index=idx), 60)
    ctx.check(got == len(gone), '%s gaps in %d records, expected %d', got, n, len(gone))
    ctx.observe(n, got)


def drop(ctx, idx, shift):
    df = pd.DataFrame(dict(x=np.arange(float(len(idx))), y=1.0), index=idx)
    df.iloc[1::3, 0] = np.nan
    df.iloc[1::6, 1] = np.nan
    before = df.copy()
    with contextlib.redirect_stdout(io.StringIO()):
        got = melodist.util.drop_incomplete_days(df, shift=shift) if shift is not None else \
            melodist.util.drop_incomplete_days(df)
    ctx.check(df.equals(before), 'input changed')
    first = shift if shift is not None and 0 <= shift <= 23 else 0
    last = (first - 1) % 24
    a = [k for k, t in enumerate(idx) if t.hour == first and t.minute == 0]
    b = [k for k, t in enumerate(idx) if t.hour == last and t.minute == 0]
    keep = list(range(a[0], b[-1] + 1)) if a and b else []
    expect_index(ctx, got.index, idx[keep], 'records kept (first hour %s)' % shift)
    expect(ctx, got.x, df.x.iloc[keep], 'values')
    ctx.check(list(got.columns) == ['x', 'y'], 'columns')
    if len(keep) == len(idx):
        ctx.check(got.equals(df), 'complete days changed')
    ctx.observe(got)


def scen_drop(ctx):
    shift = ctx.pick(list(range(24)), 'first hour of the day')
    start = ctx.choose(24, 'first record')
    for n in range(1, 73, 1 if ctx.tier == 'thorough' else 1):
        drop(ctx, hours(pd.Timestamp('2016-02-28') + pd.Timedelta(hours=start), n), shift)
    ctx.cover(series=72)


def scen_drop_default(ctx):
    shift = ctx.pick([None, 24, -1, 100, 0], 'invalid or default shift')
    start = ctx.choose(24, 'first record')
    n = 1 + ctx.choose(50, 'records')
    drop(ctx, hours(pd.Timestamp('2015-12-31') + pd.Timedelta(hours=start), n), shift)


def scen_drop_holes(ctx):
    """Absent hours inside and at the borders of days."""
    shift = ctx.pick([0, 8, 23], 'first hour of the day')
    critical = sorted({(shift + k) % 24 + 24 * d for d in (0, 1, 2) for k in (-1, 0, 1)} & set(range(72)))
    keep = np.ones(72, dtype=bool)
    for c in critical[:9]:
        if ctx.choose(2, 'absent'):
            keep[c] = False
    drop(ctx, hours('2016-02-28', 72)[keep], shift)


def scen_drop_minutes(ctx):
    """Records between the full hours."""
    shift = ctx.pick([0, 1, 8, 23], 'first hour of the day')
    freq = ctx.pick(['30min', '20min', '15min', '45min', '90min'], 'distance of records')
    start = ctx.pick(range(0, 180, 15), 'first record')
    for h in ((shift - 2) % 24, (shift - 1) % 24):
        idx = pd.date_range(pd.Timestamp('2016-02-28') + pd.Timedelta(hours=h, minutes=start), periods=110, freq=freq)
        for n in list(range(1, 8)) + list(range(80, 111, 3)):
            drop(ctx, idx[:n], shift)


def scenarios(tier):
    return [('gaps', scen_gaps), ('distances', scen_distances), ('long', scen_long), ('drop', scen_drop),
            ('drop-default', scen_drop_default), ('drop-holes', scen_drop_holes), ('drop-minutes', scen_drop_minutes)]
