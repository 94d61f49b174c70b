"""C17: missing days stay local, the hourly grid is complete."""
import itertools

import numpy as np
import pandas as pd

from .. import fix
from ..common import cyc, days, expect, expect_index, hours_of, scripted_random
from ..repo import melodist

N = 7
RULE = ('choice = method, missing variable, one or two missing days, missing value or absent row; result '
        'compared hour by hour with the result without missing values')
BOUNDS = dict(series='%d days over a month end' % N, missing='every day and every pair of days, all but every second, third, seventh day',
              methods='%d methods and options' % len(fix.OPS), variables=fix.VARS)
ASSUMPTIONS = ['a missing day counts as dry for the position of its neighbours in the cascade model',
               'polar nights are covered by C09']

HUM_T = ('minimal', 'dewpoint_regression', 'linear_dewpoint_variation')


def reach(op, var):
    """Days whose result may differ if `var` is missing on day d: (before, after), or None."""
    what, rest = op.split(' ', 1)
    if what == 'temp':
        if rest.startswith('mean_course_min_max'):
            return (0, 0) if var in ('tmin', 'tmax') else None
        if rest.startswith('mean_course_mean') or rest.startswith('sine_mean'):
            return (0, 0) if var in ('tmin', 'tmax', 'temp') else None
        return (1, 1) if var in ('tmin', 'tmax') else None
    if what == 'hum':
        deps = {}
        m = rest.split(' ')[0]
        if m == 'equal':
            deps = {'hum': (0, 0)}
        elif m == 'linear_dewpoint_variation':
            deps = {'tmin': (1, 0)}
        elif m in HUM_T:
            deps = {'tmin': (0, 0)}
        elif m == 'min_max':
            deps = {v: (0, 0) for v in ('tmin', 'tmax', 'hum_min', 'hum_max')}
        else:
            deps = {'precip': (0, 0)}
        if rest.endswith('mean'):
            deps.setdefault('hum', (0, 0))
        return deps.get(var)
    if what == 'wind':
        return (0, 0) if var == 'wind' else None
    if what == 'precip':
        return (0, 0) if var == 'precip' else None
    if rest == 'pot_rad_via_ssd':
        return (0, 0) if var == 'ssd' else None
    if rest == 'pot_rad_via_bc':
        return 'month' if var in ('tmin', 'tmax') else None
    return (0, 0) if var == 'glob' else None


def must_be_missing(op, var):
    """Is the whole own day missing if `var` is missing?"""
    what, rest = op.split(' ', 1)
    if what in ('wind', 'precip', 'glob') and reach(op, var) is not None:
        return True
    if what == 'hum':
        return (var == 'hum' and rest.startswith('equal')) or \
            (var == 'tmin' and rest.split(' ')[0] in HUM_T + ('min_max',))
    if what == 'temp':
        return rest.startswith('mean_course') and reach(op, var) is not None or \
            (rest.startswith('sine_mean') and reach(op, var) is not None)
    return False


def run(op, df, base):
    var, call = fix.OPS[op]
    st = fix.station(df, temp=fix.hourly_temp(base))
    with scripted_random(cyc([0.4])):
        call(st)
    return st


def compare(ctx, op, var, missing, absent, base=None, step=1):
    if base is None:
        base = fix.daily('2016-02-25', N)
    clean = base
    df = base.copy()
    if absent:
        df = df.drop(index=df.index[missing]) if step == 1 else df.iloc[::step]     # (keeps the frequency)
        if len(df) < 2 or (op.startswith('precip cascade') and len(df) < 2):
            return
        names = fix.VARS
    else:
        df.loc[df.index[missing], var] = np.nan
        names = [var]
    if op == 'precip cascade' and 'precip' in names:
        clean = base.copy()
        clean.loc[clean.index[missing], 'precip'] = 0.0
    # absent first or last days shorten the series
    span = days(df.index[0], (df.index[-1] - df.index[0]).days + 1)
    pos = [list(base.index).index(d) for d in span]
    ref = run(op, clean.loc[span], base).data_disagg[fix.OPS[op][0]]
    st = run(op, df, base)
    got = st.data_disagg
    expect_index(ctx, got.index, hours_of(span), op)
    ctx.check(list(got.columns) == ['temp', 'precip', 'glob', 'hum', 'wind'], 'columns %s', list(got.columns))
    got = got[fix.OPS[op][0]].to_numpy().reshape(-1, 24)
    ref = ref.to_numpy().reshape(-1, 24)
    ctx.check(not np.isnan(ref).any(), '%s: missing hours without missing input', op)
    touched, gone = set(), set()
    for d in missing:
        if d not in pos:
            continue
        k = pos.index(d)
        for v in names:
            r = reach(op, v)
            if r is None:
                continue
            if r == 'month':
                months = {span[k].month}
                if v == 'tmin' and k > 0:
                    months.add(span[k - 1].month)
                touched |= {i for i in range(len(span)) if span[i].month in months}
                touched.add(k)
            else:
                touched |= set(range(max(k - r[0], 0), min(k + r[1], len(span) - 1) + 1))
            if must_be_missing(op, v):
                gone.add(k)
    for i in range(len(span)):
        if i not in touched:
            expect(ctx, got[i], ref[i], '%s with %s missing on day(s) %s: day %d' % (op, names, missing, i))
        elif not any(i == pos.index(d) for d in missing if d in pos):
            # neighbours: hours may be missing only within the documented reach, not the whole day
            ctx.check(not np.isnan(got[i]).all() or 'bc' in op or 'linear' in op or len(missing) > 1,
                      '%s: whole neighbouring day %d missing', op, i)
        if i in gone:
            # (hours of the night are zero in radiation results)
            sel = ref[i] > 0 if op.startswith('glob') else np.ones(24, dtype=bool)
            ctx.check(np.isnan(got[i][sel]).all(), '%s: values on day %d although %s is missing', op, i, names)
    ctx.observe(got)


def scen_variable(ctx):
    op = ctx.pick(sorted(fix.OPS), 'operation')
    var = ctx.pick(fix.VARS, 'variable')
    pairs = [[d] for d in range(N)] + [list(p) for p in itertools.combinations(range(N), 2)]
    if reach(op, var) is None and ctx.tier == 'quick':
        pairs = [[0], [3], [N - 1], [2, 3]]
    compare(ctx, op, var, ctx.pick(pairs, 'missing days'), False)


def scen_absent(ctx):
    op = ctx.pick(sorted(fix.OPS), 'operation')
    pairs = [[d] for d in range(N)] + [list(p) for p in itertools.combinations(range(N), 2)]
    compare(ctx, op, None, ctx.pick(pairs, 'absent days'), True)


def scen_regular(ctx):
    """Regular tables with one row every second, third or seventh day."""
    op = ctx.pick(sorted(fix.OPS), 'operation')
    step = ctx.pick([2, 3, 7], 'step')
    n = 15
    start = ctx.pick(['2016-02-25', '2015-12-20'], 'start')
    compare(ctx, op, None, [k for k in range(n) if k % step], True, fix.daily(start, n), step)


def long_series():
    v = fix.daily('2014-06-01', 97)
    idx = days('2014-06-01', 760)
    return v.iloc[np.arange(760) % 97].set_axis(idx)


LONG = ['2014-07-04', '2015-03-01', '2015-07-05', '2016-02-29', '2016-05-31']


def scen_years(ctx):
    """Two years: missing days do not affect the same calendar day of other years or months."""
    op = ctx.pick(sorted(fix.OPS), 'operation')
    var = ctx.pick([v for v in fix.VARS if reach(op, v) is not None] + ['absent'], 'variable')
    base = long_series()
    missing = [list(base.index).index(d) for d in days_of(LONG)]
    compare(ctx, op, None if var == 'absent' else var, missing, var == 'absent', base)


def days_of(names):
    return [pd.Timestamp(x) for x in names]


def scen_grid(ctx):
    """Complete hourly grid for every start date around year and month ends, any number of days."""
    start = ctx.pick(['2015-12-30', '2016-02-27', '2017-02-27', '2016-03-26', '2016-10-29', '2016-12-31'],
                     'start')
    n = ctx.pick([2, 3, 5, 40], 'days')
    op = ctx.pick(sorted(fix.OPS), 'operation')
    df = fix.daily(start, n)
    st = run(op, df, df)
    expect_index(ctx, st.data_disagg.index, hours_of(df.index), op)
    v = st.data_disagg[fix.OPS[op][0]]
    ctx.check(not v.isnull().any(), '%s: missing hours', op)
    for other in set(st.data_disagg.columns) - {fix.OPS[op][0], 'temp'}:
        ctx.check(st.data_disagg[other].isnull().all(), '%s wrote %s', op, other)
    ctx.observe(v)


def scen_all(ctx):
    """A variable without any value: the grid is complete all the same."""
    op = ctx.pick(list(fix.OPS), 'method')
    var = ctx.pick(fix.VARS, 'variable')
    compare(ctx, op, var, list(range(N)), False)


def scen_direct(ctx):
    """The functions themselves return the complete grid, whatever is missing."""
    df = fix.daily('2016-02-27', 4)
    gone = [d for d in range(4) if ctx.choose(2, 'missing')]
    df.iloc[gone] = np.nan
    temp = fix.hourly_temp(fix.daily('2016-02-27', 4))
    for kw in (dict(method='equal'), dict(method='minimal'), dict(method='min_max'),
               dict(method='dewpoint_regression', a0=3.0, a1=0.98)):
        for keep in (False, True):
            out = melodist.disaggregate_humidity(df, temp=temp, preserve_daily_mean=keep, **kw)
            expect_index(ctx, out.index, hours_of(df.index), 'humidity %s' % kw['method'])
    for method in ('equal', 'random'):
        out = melodist.disaggregate_wind(df.wind, method=method)
        expect_index(ctx, out.index, hours_of(df.index), 'wind %s' % method)
    out = melodist.disagg_prec(df, method='equal')
    expect_index(ctx, out.index, hours_of(df.index), 'precipitation')
    ctx.observe(gone)


def scenarios(tier):
    return [('years', scen_years), ('variable', scen_variable), ('absent', scen_absent), ('grid', scen_grid),
            ('regular', scen_regular), ('all-missing', scen_all), ('direct', scen_direct)]
