"""C24: hourly data aggregate to the right daily values."""
import numpy as np
import pandas as pd

from .. import fix
from ..common import NAN, cyc, days, expect, expect_index, hours_of, scripted_random
from ..repo import melodist

RULE = ('choice = variables, missing-hour pattern of each day, first and last hour, absent days, calendar '
        'position; daily table compared with plain sums, means and extremes')
BOUNDS = dict(variables='all subsets of 6', patterns='7 patterns for each of 3 days',
              edges='all 24 x 24 first and last hours, all absent-day patterns of 4 days',
              calendar='6 positions')
ASSUMPTIONS = []

PATTERNS = {
    'complete': lambda h: False,
    'empty': lambda h: True,
    'first': lambda h: h == 0,
    'last': lambda h: h == 23,
    'one left': lambda h: h != 11,
    'even': lambda h: h % 2 == 0,
    'morning': lambda h: h < 12,
}
STARTS = ['2015-12-30', '2016-02-28', '2017-02-28', '2016-03-26', '2016-10-29', '2016-06-29']
COLS = ['temp', 'precip', 'glob', 'hum', 'wind', 'ssd']


def reference(df):
    first, last = df.index[0].normalize(), df.index[-1].normalize()
    index = days(first, (last - first).days + 1)
    rows = []
    where = {}
    for k, t in enumerate(df.index):
        where.setdefault(t.normalize(), []).append(k)
    for d in index:
        sel = where.get(d, [])
        row = {}

        def vals(c):
            return [v for v in (df[c].iloc[k] for k in sel) if v == v]

        def mean(v):
            return sum(v) / len(v) if v else NAN

        if 'temp' in df:
            v = vals('temp')
            row.update(temp=mean(v), tmin=min(v) if v else NAN, tmax=max(v) if v else NAN)
        if 'precip' in df:
            row['precip'] = sum(vals('precip'))
        if 'glob' in df:
            row['glob'] = mean(vals('glob'))
        if 'hum' in df:
            v = vals('hum')
            row.update(hum=mean(v), hum_min=min(v) if v else NAN, hum_max=max(v) if v else NAN)
        if 'wind' in df:
            row['wind'] = mean(vals('wind'))
        if 'ssd' in df:
            row['ssd'] = sum(vals('ssd')) / 60.0
        rows.append(row)
    return pd.DataFrame(rows, index=index)


def compare(ctx, df):
    got = melodist.util.daily_from_hourly(df)
    want = reference(df)
    ctx.check(set(got.columns) == set(want.columns), 'columns %s, expected %s', sorted(got.columns),
              sorted(want.columns))
    expect_index(ctx, got.index, want.index, 'days')
    for c in want:
        expect(ctx, got[c].to_numpy(dtype=float), want[c], c, index=want.index)
    ctx.observe(got)
    return got


def scen_variables(ctx):
    cols = [c for c in COLS if not ctx.choose(2, 'without ' + c)]
    if not cols:
        return
    start = ctx.pick(STARTS, 'start')
    df = fix.hourly(start, 3)[cols]
    order = ctx.choose(4, 'order of the columns')
    if order == 1:
        df = df[cols[::-1]]
    elif order == 2:
        # other columns before and after
        df = pd.DataFrame({'x': 1.0, 'rain': 3.0, 'tmin': 7.0, 'y': 2.0, 'z': 2.0, 'w': 0.0,
                           **{c: df[c] for c in cols}, 'precipitation': 9.0})
    elif order == 3:
        df = df[cols[len(cols) // 2:] + cols[:len(cols) // 2]]
    compare(ctx, df)


def scen_patterns(ctx):
    start = ctx.pick(STARTS[:3], 'start')
    df = fix.hourly(start, 3)
    miss = []
    for d in range(3):
        p = PATTERNS[ctx.pick(sorted(PATTERNS), 'pattern')]
        miss += [p(h) for h in range(24)]
    df[np.array(miss)] = np.nan
    compare(ctx, df)


def scen_columns_differ(ctx):
    """Missing hours of one variable do not matter for the others."""
    var = ctx.pick(COLS, 'variable')
    p = PATTERNS[ctx.pick(sorted(PATTERNS), 'pattern')]
    day = ctx.choose(3, 'day')
    df = fix.hourly('2016-02-28', 3)
    m = np.array([k // 24 == day and p(k % 24) for k in range(72)])
    df.loc[m, var] = np.nan
    compare(ctx, df)


def scen_extremes(ctx):
    """Every position of the largest and of the smallest value of a day, with missing hours."""
    hi = ctx.choose(24, 'hour of the maximum')
    miss = ctx.choose(4, 'missing')
    sign = ctx.pick([1.0, -1.0], 'sign')
    df = fix.hourly('2016-02-20', 24)
    h = np.arange(24)
    for c in ('temp', 'hum', 'wind', 'glob', 'precip'):
        df[c] = np.concatenate([np.where(h == hi, 90.0, np.where(h == lo, 5.0, 30.0 + h)) for lo in range(24)])
    df['temp'] = df.temp * sign
    # hour 0, 23 or one next to the maximum is missing
    gone = [None, 0, 23, (hi + 1) % 24][miss]
    if gone is not None:
        df[df.index.hour == gone] = np.nan
    compare(ctx, df)


def scen_values(ctx):
    """Signs, zeros and magnitudes of each variable."""
    var = ctx.pick(COLS, 'variable')
    kind = ctx.pick(['negative', 'alternating', 'zero', 'large', 'small', 'whole', 'night', 'single'], 'values')
    start = ctx.pick(STARTS[:2], 'start')
    df = fix.hourly(start, 4)
    k = np.arange(len(df))
    df[var] = {'negative': -1.5 - k % 7, 'alternating': np.where(k % 2, 3.25, -4.5) * (1 + k % 5), 'zero': k * 0.0,
               'large': 1e7 + 1e5 * (k % 11), 'small': 1e-7 * (1 + k % 5), 'whole': 1 + k % 13,
               'night': np.where(k % 24 < 12, -2.25, 7.5), 'single': np.where(k % 29 == 3, 0.01, 0.0)}[kind]
    if ctx.choose(2, 'missing hours'):
        df.loc[df.index[[2, 30, 31, 95]], var] = np.nan
    compare(ctx, df)


def scen_long(ctx):
    """Series of one to fourteen months: days with the same number in several months."""
    start = ctx.pick(['2016-01-15', '2015-12-20', '2016-02-29', '2015-06-30'], 'start')
    n = ctx.pick([31, 33, 45, 62, 100, 425], 'days')
    gap = ctx.pick([None, (8, 20), (25, 31)], 'absent days')
    df = fix.hourly(start, n)
    if gap:
        df = df.drop(index=df.index[24 * gap[0]:24 * gap[1]])
    compare(ctx, df)


def scen_edges(ctx):
    first = ctx.choose(24, 'first hour')
    last = ctx.choose(24, 'last hour')
    df = fix.hourly('2016-02-28', 3)
    df = df.iloc[first:len(df) - 23 + last]
    if ctx.choose(2, 'one day less'):
        df = df.iloc[:-24]
    if len(df):
        compare(ctx, df)


def scen_absent(ctx):
    df = fix.hourly(ctx.pick(STARTS, 'start'), 4)
    keep = np.repeat([not ctx.choose(2, 'absent') for _ in range(4)], 24)
    holes = ctx.choose(3, 'absent hours')
    if holes:
        keep = keep & (np.arange(96) % (5 if holes == 1 else 24) != 3)
    if keep.any():
        cols = ctx.pick([COLS, ['hum'], ['precip'], ['temp']], 'columns')
        compare(ctx, df[keep][cols])


def scen_named(ctx):
    """Index names and single days do not matter."""
    df = fix.hourly('2016-02-28', 1 + ctx.choose(3, 'days'))
    if ctx.choose(2, 'named'):
        df.index.name = ctx.pick(['date', 'temp', 'level_0'], 'name')
    got = compare(ctx, df)
    ctx.check(got.index.name is None, 'name of the index')


def scen_back(ctx):
    """Conserving disaggregations aggregate back to their daily input."""
    start = ctx.pick(STARTS, 'start')
    word = [0.3, 0.8, 0.05, 0.6]
    df = fix.daily(start, 6)
    st = fix.station(df, temp=fix.hourly_temp(df))
    t = ctx.pick(['sine_mean', 'mean_course_mean', 'mean_course_min_max'], 'temperature')
    p = ctx.pick(['equal', 'cascade', 'masterstation'], 'precipitation')
    g = ctx.pick(['pot_rad', 'mean_course'], 'radiation')
    st.disaggregate_temperature(t)
    with scripted_random(cyc(word)):
        st.disaggregate_precipitation(p, **({} if p != 'masterstation' else
                                            dict(master_precip=fix.master(df.index))))
    st.disaggregate_radiation(g)
    st.disaggregate_wind('equal')
    st.disaggregate_humidity('equal')
    got = melodist.util.daily_from_hourly(st.data_disagg)
    expect_index(ctx, got.index, df.index, 'days')
    if t == 'mean_course_min_max':
        for v in ('tmin', 'tmax'):
            expect(ctx, got[v], df[v], v)
    else:
        expect(ctx, got.temp, df.temp, 'mean temperature')
    expect(ctx, got.precip, df.precip, 'precipitation')
    expect(ctx, got.glob, df.glob, 'radiation', atol=0.01)
    expect(ctx, got.wind, df.wind, 'wind')
    for v in ('hum', 'hum_min', 'hum_max'):
        expect(ctx, got[v], df.hum, v)
    ctx.observe(got)


def scenarios(tier):
    return [('variables', scen_variables), ('patterns', scen_patterns), ('columns', scen_columns_differ),
            ('extremes', scen_extremes), ('values', scen_values), ('edges', scen_edges), ('long', scen_long),
            ('absent', scen_absent), ('named', scen_named), ('back', scen_back)]
