"""C05: precipitation from a master station."""
import itertools

import numpy as np
import pandas as pd

from ..common import NAN, days, expect, expect_index, hours_of, scattered
from ..repo import melodist

RULE = ('choice = own daily total and master pattern of every day, absent days, extent of the master '
        'series, zero-division option and entry point; all days compared with the reference')
BOUNDS = dict(
    days='all pairs of (own total in 5) x (master pattern in 9) for 2 days, all sequences of 3 master patterns',
    absent='all subsets of 5 days',
    options='uniform / other zero-division, direct call, general function and station',
)
ASSUMPTIONS = ['the master station has a record for each of the 24 hours of every requested day '
               'on which it was wet']

RAMP = np.arange(24.0)
LATE = np.where(np.arange(24) == 23, 4.0, 0.0)
PATTERNS = {
    'dry': np.zeros(24),
    'first hour': np.where(np.arange(24) == 0, 0.3, 0.0),
    'last hour': LATE,
    'ramp': RAMP,
    'trace': np.where(np.isin(np.arange(24), [3, 4]), [2e-5] * 24, 0.0),
    'flood': RAMP * 11.0,
    'two hours': np.where(np.isin(np.arange(24), [7, 19]), [0.5] * 24, 0.0),
    'missing': np.full(24, np.nan),
    'partly missing': np.where(np.arange(24) % 5 == 2, np.nan, RAMP[::-1]),
}
TOTALS = [3.0, 0.0, NAN, 2e-4, 260.0]


def reference(totals, patterns, zerodiv):
    out = []
    for t, p in zip(totals, patterns):
        s = np.nansum(p)
        if s != 0:
            out.append(p / s * t)
        elif zerodiv == 'uniform':
            out.append(np.full(24, t / 24.0))
        else:
            out.append(np.full(24, 0.0 if t == t else np.nan))
    return np.concatenate(out)


def call(ctx, how, index, totals, master, zerodiv, dtype=float):
    s = pd.Series(list(totals), index=index, dtype=dtype)
    if how == 'direct':
        return melodist.precip_master_station(s, master, zerodiv)
    if how == 'general':
        return melodist.disagg_prec(s, method='masterstation', hourly_data_obs=master, zerodiv=zerodiv)
    st = melodist.Station(data_daily=pd.DataFrame(dict(precip=s)))
    st.disaggregate_precipitation(method='masterstation', master_precip=master, zerodiv=zerodiv)
    return st.data_disagg.precip


def run(ctx, index, totals, names, zerodiv, how, margin=0):
    full = pd.date_range(index[0] - pd.Timedelta(days=margin), index[-1] + pd.Timedelta(days=margin),
                         freq='D')
    pats = {d: np.full(24, 9.0) + np.arange(24) for d in full}
    for d, n in zip(index, names):
        pats[d] = PATTERNS[n]
    master = pd.Series(np.concatenate([pats[d] for d in full]), index=hours_of(full))
    keep = master.copy(deep=True)
    out = call(ctx, how, index, totals, master, zerodiv)
    ctx.check(master.equals(keep), 'the master series was modified')
    want = reference(totals, [pats[d] for d in index], zerodiv)
    if how == 'station':
        grid = hours_of(full[margin:len(full) - margin])
        want = pd.Series(want, index=hours_of(index)).reindex(grid).to_numpy()
    else:
        grid = hours_of(index)
    expect_index(ctx, out.index, grid, 'hourly index')
    expect(ctx, out, want, 'master station precipitation', index=out.index)
    ctx.observe(out)


def scen_pairs(ctx):
    zerodiv = ctx.pick(['uniform', 'zero'], 'zero division')
    how = ctx.pick(['direct', 'general', 'station'], 'entry point')
    start = ctx.pick(['2016-02-28', '2015-12-31'] if how == 'direct' else ['2016-02-28'], 'start')
    first = ctx.pick(list(itertools.product(TOTALS, PATTERNS)), 'first day')
    for second in itertools.product(TOTALS, PATTERNS):
        run(ctx, days(start, 2), [first[0], second[0]], [first[1], second[1]], zerodiv, how, margin=1)


def scen_patterns(ctx):
    names = [ctx.pick(list(PATTERNS), 'master pattern') for _ in range(3)]
    run(ctx, days('2016-03-30', 3), [3.0, 1.0, 7.5], names, 'uniform', 'station',
        margin=ctx.pick([0, 2], 'margin of the master series'))


def scen_absent(ctx):
    base = days('2016-02-27', 5)
    keep = [bool(ctx.choose(2, 'absent') == 0) for _ in range(5)]
    if not any(keep):
        return
    how = ctx.pick(['direct', 'general', 'station'], 'entry point')
    names = ['ramp', 'first hour', 'dry', 'last hour', 'two hours']
    totals = [2.0, 3.0, 5.0, 7.0, 11.0]
    run(ctx, base[keep], [t for t, k in zip(totals, keep) if k], [n for n, k in zip(names, keep) if k],
        'uniform', how, margin=1)


def scen_partial(ctx):
    """A dry master day without some of its records."""
    how = ctx.pick(['direct', 'general', 'station'], 'entry point')
    zerodiv = ctx.pick(['uniform', 'zero'], 'zero division')
    n = ctx.pick([0, 1, 2], 'day')
    lost = ctx.pick([(0,), (23,), (5, 6, 7), tuple(range(1, 24)), tuple(range(23))], 'absent records')
    index = days('2016-02-28', 3)
    pats = [RAMP, RAMP[::-1], RAMP]
    pats[n] = np.zeros(24)
    master = pd.Series(np.concatenate(pats), index=hours_of(index))
    master = master.drop([index[n] + pd.Timedelta(hours=h) for h in lost])
    totals = [2.0, 3.0, 5.0]
    out = call(ctx, how, index, totals, master, zerodiv)
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    expect(ctx, out, reference(totals, pats, zerodiv), 'dry master day with absent records',
           index=out.index)
    ctx.observe(out)


def scen_types(ctx):
    """Whole numbers and single precision, of the totals and of the master series."""
    how = ctx.pick(['direct', 'general', 'station'], 'entry point')
    zerodiv = ctx.pick(['uniform', 'zero'], 'zero division')
    own = ctx.pick(['int64', 'int32', 'float32', 'float64'], 'type of the totals')
    other = ctx.pick(['int64', 'int32', 'float32', 'float64'], 'type of the master series')
    index = days('2016-02-28', 4)
    pats = [RAMP, np.zeros(24), RAMP[::-1] * 3, np.where(np.arange(24) == 5, 7.0, 0.0)]
    totals = [5.0, 7.0, 0.0, 1.0]
    master = pd.Series(np.concatenate(pats), index=hours_of(index)).astype(other)
    out = call(ctx, how, index, totals, master, zerodiv, own)
    expect(ctx, out, reference(totals, pats, zerodiv), '%s totals, %s master series' % (own, other),
           index=out.index, rtol=1e-9 if (own, other) == ('float64', 'float64') else 1e-6)
    ctx.observe(out)


def scen_years(ctx):
    """Equal calendar days of several years have their own patterns and totals."""
    index = scattered()[:7]
    how = ctx.pick(['direct', 'general', 'station'], 'entry point')
    special = ctx.choose(len(index), 'special day')
    kind = ctx.pick(['missing', 'dry', 'total missing', 'total zero'], 'what')
    zerodiv = ctx.pick(['uniform', 'zero'], 'zero division')
    names = [['ramp', 'first hour', 'two hours'][i % 3] for i in range(len(index))]
    totals = [1.0 + i for i in range(len(index))]
    if kind.startswith('total'):
        totals[special] = NAN if kind == 'total missing' else 0.0
    else:
        names[special] = kind
    run(ctx, index, totals, names, zerodiv, how)


def scen_single(ctx):
    """One day; every single wet hour."""
    h = ctx.choose(24, 'wet hour')
    t = ctx.pick(TOTALS, 'total')
    PATTERNS['hour'] = np.where(np.arange(24) == h, 0.1, 0.0)
    run(ctx, days('2016-07-01', 1), [t], ['hour'], 'uniform', 'direct', margin=1)
    del PATTERNS['hour']


def scenarios(tier):
    return [('years', scen_years), ('types', scen_types), ('pairs', scen_pairs), ('patterns', scen_patterns), ('partial', scen_partial),
            ('absent-days', scen_absent),
            ('single-hour', scen_single)]
