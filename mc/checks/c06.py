"""C06: equal distribution."""
import itertools

import numpy as np
import pandas as pd

from ..common import NAN, days, expect, expect_index, hours_of, scattered
from ..repo import melodist

RULE = ('choice = calendar position, missing and absent days, number type, entry point; every hour is '
        'compared with the value of its own day')
BOUNDS = dict(
    short='all patterns of present/missing/absent over 4 days (thorough 6) at 8 calendar positions',
    long='all pairs of missing (or absent) days in a 70 day series across month ends (thorough 100 days)',
    magnitudes='all triples of 6 values from 1e-6 to 1e6',
    entry='generic function (with and without division), precipitation, wind, humidity, station',
)
ASSUMPTIONS = ['daily time stamps are at midnight']

STARTS = ['2016-02-27', '2015-02-26', '2015-12-29', '2016-01-28', '2016-04-29', '2016-07-29',
          '2000-02-27', '2016-10-28']


def apply(how, s):
    """-> result, divisor"""
    if how == 'generic':
        return melodist.distribute_equally(s), 1
    if how == 'generic/divide':
        return melodist.distribute_equally(s, divide=True), 24
    if how == 'precip':
        return melodist.disagg_prec(pd.DataFrame(dict(precip=s)), method='equal'), 24
    if how == 'wind':
        return melodist.disaggregate_wind(s, method='equal'), 1
    if how == 'hum':
        return melodist.disaggregate_humidity(pd.DataFrame(dict(hum=s)), method='equal'), 1
    st = melodist.Station(data_daily=pd.DataFrame(dict(hum=s, wind=s, precip=s)))
    if how == 'station/precip':
        st.disaggregate_precipitation()
        return st.data_disagg.precip, 24
    if how == 'station/wind':
        st.disaggregate_wind()
        return st.data_disagg.wind, 1
    st.disaggregate_humidity()
    return st.data_disagg.hum, 1


HOWS = ['generic', 'generic/divide', 'precip', 'wind', 'hum', 'station/precip', 'station/wind',
        'station/hum']


def run(ctx, s, how):
    keep = s.copy(deep=True)
    out, div = apply(how, s)
    ctx.check(s.equals(keep), 'the daily series was modified')
    if how.startswith('station'):
        grid = pd.date_range(s.index[0], s.index[-1], freq='D')
        s = s.reindex(grid)
    else:
        grid = s.index
    expect_index(ctx, out.index, hours_of(grid), how + ': hourly index')
    expect(ctx, out, np.repeat(s.to_numpy(dtype=float) / div, 24), how, index=out.index)
    ctx.observe(out)


def scen_short(start):
    def fn(ctx):
        n = 6 if ctx.tier == 'thorough' else 4
        state = [ctx.pick(['value', 'missing', 'absent', 'zero'], 'day') for _ in range(n)]
        keep = [x != 'absent' for x in state]
        if sum(keep) == 0:
            return
        how = ctx.pick(HOWS, 'entry point')
        values = [dict(missing=NAN, zero=0.0).get(x, 1.3 * i + 2.1) for i, x in enumerate(state)]
        run(ctx, pd.Series(values, index=days(start, n))[keep], how)
    return fn


def scen_long(kind):
    def fn(ctx):
        n = 100 if ctx.tier == 'thorough' else 70
        i = ctx.choose(n, 'day')
        how = 'generic/divide' if kind == 'missing' else 'wind'
        for j in range(i, n):
            s = pd.Series(np.arange(n) * 1.1 + 0.3, index=days('2016-01-15', n))
            if kind == 'missing':
                s.iloc[[i, j]] = np.nan
            elif kind == 'only':
                s[:] = np.nan
                s.iloc[[i, j]] = [5.0, 7.0]
            else:
                s = s.drop(s.index[sorted({i, j})])
            run(ctx, s, how)
    return fn


def scen_years(ctx):
    """Equal calendar days of several years and months, every subset missing."""
    index = scattered()
    values = [NAN if ctx.choose(2, 'missing') else 2.1 + 1.3 * i for i in range(len(index))]
    for how in HOWS[:5]:
        run(ctx, pd.Series(values, index=index), how)


def scen_magnitudes(ctx):
    """Values of all magnitudes next to each other."""
    values = [ctx.pick([1e-6, 0.0237, 99.7, 100.0, 2500.3, 1e6], 'value') for _ in range(3)]
    for how in HOWS:
        if 'hum' not in how or max(values) <= 100:
            run(ctx, pd.Series(values, index=days('2016-02-28', 3)), how)


def scen_types(ctx):
    start = ctx.pick(STARTS, 'start')
    kind = ctx.pick(['int', 'float32', 'named', 'one day', 'leap year', 'two years'], 'series')
    how = ctx.pick(HOWS, 'entry point')
    n = dict([('one day', 1), ('leap year', 366), ('two years', 731)]).get(kind, 4)
    s = pd.Series(np.arange(n) % 99 + 1.0, index=days(start, n))
    if kind == 'int':
        s = s.astype(int)
    elif kind == 'float32':
        s = s.astype('float32')
    elif kind == 'named':
        s.name = 'something'
        s.index.name = 'date'
    if kind == 'float32':
        out, div = apply(how, s)
        expect(ctx, out, np.repeat(s.to_numpy(dtype=float) / div, 24), how, rtol=1e-6)
        return
    run(ctx, s, how)


def scenarios(tier):
    return ([('short/' + s, scen_short(s)) for s in STARTS]
            + [('pairs/' + k, scen_long(k)) for k in ('missing', 'only', 'absent')]
            + [('years', scen_years), ('magnitudes', scen_magnitudes), ('types', scen_types)])
