"""C04: estimated cascade statistics equal the observed branching frequencies."""
import itertools

import numpy as np
import pandas as pd

from .. import ref_cascade as ref
from ..common import NAN, debruijn, expect, same
from ..repo import melodist

RULE = ('choice = words of hourly amounts appended to a series that contains all classes, seasons and '
        'their order, percentile, averaging, resolution; compared with frequencies counted by an '
        'independent reference at every level')
BOUNDS = dict(
    words='all words of length 6 over {0, 1, 3.25, missing}; all words of length 8 over {0, 1} alone',
    seasons='12 partitions of the months, all rotations and reversals of their order',
    weights='exactly at and next to the six class borders in all contexts',
    percentiles='25, 50, 75, 12.5, 62.5',
    resolution='hourly (5 levels) and five-minute (9, 10, 11 levels), averaged and per level',
)
ASSUMPTIONS = ['at least one wet aggregated interval at each level (otherwise no percentile exists)',
               'at least two intervals at the coarsest level']

# halves of dry, weak and strong intervals (all branching types, several weights)
WEAK = [(1.0, 0.0), (0.25, 0.75), (0.0, 1.25), (0.5, 0.5), (1.0, 0.25), (0.75, 0.0)]
STRONG = [(3.0, 0.75), (0.0, 4.0), (2.0, 2.5), (4.25, 0.0), (0.25, 3.5), (1.5, 3.0), (5.0, 0.25)]


def base_word():
    """All sequences of three dry, weak or strong intervals, with varying branchings."""
    out = []
    n = [0, 0]
    for _ in range(3):
        for i in debruijn(3, 3):
            if i == 0:
                out += [0.0, 0.0]
            else:
                menu = (WEAK, STRONG)[i - 1]
                out += list(menu[n[i - 1] % len(menu)])
                n[i - 1] += 1
    return out


def frame(values, start='2016-01-01', freq='h'):
    return pd.DataFrame(dict(precip=np.array(values, dtype=float)),
                        index=pd.date_range(start, periods=len(values), freq=freq))


def default_table():
    return dict(p01=np.array(ref.DEFAULT_P01), p10=np.array(ref.DEFAULT_P10),
                pxx=np.array(ref.DEFAULT_PXX), wxx=np.array(ref.DEFAULT_WXX))


def wanted(values, percentile):
    """Reference statistics of one level, with the documented fallbacks."""
    e, agg = ref.estimate(list(values), percentile)
    if e['undefined']:
        e.update(default_table())
    else:
        w = e['wxx']
        e['wxx'] = np.where(np.isnan(w), 1.0 / 7.0, w)
    return e, agg


def compare(ctx, got, want, threshold, percentile, what):
    for k in ('p01', 'p10', 'pxx', 'wxx'):
        expect(ctx, getattr(got, k), want[k], '%s: %s' % (what, k))
    expect(ctx, np.ravel(got.threshold), np.ravel(threshold), what + ': thresholds')
    ctx.check(got.percentile == percentile, '%s: percentile %s, expected %s', what, got.percentile,
              percentile)
    ctx.observe(got.p01, got.p10, got.pxx, got.wxx, got.threshold)


def check_all(ctx, values, months, hourly, level, avg, percentile, got, what):
    """values: Series; got: result for one season"""
    v = values[[m in set(int(x) for x in months) for m in values.index.month]].fillna(0)
    v = list(v.sort_index().to_numpy())
    n = 5 if hourly else level
    total = dict(p01=0, p10=0, pxx=0, wxx=0)
    thr, count = [], 0
    for k in range(n):
        w, v = wanted(v, percentile)
        thr.append(w['threshold'])
        ctx.cover(levels_with_undefined_classes=int(w['undefined']), levels_estimated=1)
        if not avg:
            compare(ctx, got[k], w, [w['threshold']], percentile, '%s level %d' % (what, k))
        for key in total:
            total[key] = total[key] + w[key] * len(v)
        count += len(v)
    if avg:
        compare(ctx, got, {k: total[k] / count for k in total}, thr, percentile, what)
    else:
        ctx.check(len(got) == n, '%s: statistics of %s levels, expected %s', what, len(got), n)


def scen_words(ctx):
    """One aggregation step; the word is appended to a series with all classes."""
    menu = [0.0, 1.0, 3.25, NAN]
    head = [ctx.pick(menu, 'amount') for _ in range(3)]
    p = ctx.pick([50, 25, 62.5], 'percentile')
    base = base_word()
    for tail in itertools.product([0.0, 1.0, 3.25], repeat=3 if ctx.tier == 'quick' else 5):
        values = [0.0 if x != x else x for x in base + head + list(tail)]
        df = frame(values)
        got, agg = melodist.aggregate_precipitation(df, percentile=p)
        w, a = wanted(values, p)
        compare(ctx, got, w, [w['threshold']], p, 'one aggregation')
        expect(ctx, agg.precip, a, 'aggregated amounts')
        expect(ctx, df.precip, values, 'the observations were modified', rtol=0, atol=0)


SCALES = [0.01, 0.001, 0.1, 37.0, 400.0, 2e-5]


def scen_scales(ctx):
    """Amounts of other magnitude, in all or in every n-th interval."""
    scale = ctx.pick(SCALES, 'factor')
    every = ctx.pick([1, 2, 3, 5], 'every')
    p = ctx.pick([50, 25, 62.5, 90, 5, 99, 100, 0], 'percentile')
    values = [v * (scale if (i // 2) % every == 0 else 1.0) for i, v in enumerate(base_word())]
    got, agg = melodist.aggregate_precipitation(frame(values), percentile=p)
    w, a = wanted(values, p)
    compare(ctx, got, w, [w['threshold']], p, 'one aggregation')
    expect(ctx, agg.precip, a, 'aggregated amounts')
    obs = year(False) * scale
    other = obs.where(np.arange(len(obs)) % every == 0, obs / scale)
    for avg in (False, True):
        got = melodist.build_casc(pd.DataFrame(dict(precip=other)), avg_stats=avg, percentile=p)
        check_all(ctx, other, range(1, 13), True, None, avg, p, got[0], 'scaled')


def scen_blocks(ctx):
    """A few long strong events among isolated weak ones: the thresholds need not grow with the level."""
    length = ctx.pick([2, 4, 8, 16, 32], 'length of the strong events')
    strong = ctx.pick([1, 2, 4], 'strong events')
    weak = ctx.pick([1, 3, 6, 20], 'weak events')
    p = ctx.pick([50, 25, 90], 'percentile')
    v = np.zeros(64 * (strong + weak))
    for k in range(strong):
        v[64 * k:64 * k + length] = 10.0 + k
    for k in range(weak):
        v[64 * (strong + k) + 5 * k % 64] = 1.0 + 0.125 * k
    df = frame(v)
    ups = []
    for avg in (False, True):
        got = melodist.build_casc(df, avg_stats=avg, percentile=p)
        check_all(ctx, df.precip, range(1, 13), True, None, avg, p, got[0], 'blocks')
        ups += list(np.diff(np.ravel(got[0].threshold)) < 0) if avg else []
    ctx.cover(series_with_falling_thresholds=int(any(ups)))


def scen_borders(ctx):
    """Weights exactly at the borders between weight classes (a border belongs to the lower class)."""
    u = int(round(ctx.pick(ref.UPPER[:-1], 'border') * 10000))
    before, after = ctx.pick([(0, 0), (1, 0), (0, 1), (1, 1)], 'neighbours')
    scale = ctx.pick([1.0, 0.25, 1.0 / 8192], 'factor')
    d = ctx.pick([0, 1, -1], 'next to the border')
    wet = (3.0, 2.0)
    values = base_word() + [0.0, 0.0] + list(wet if before else (0.0, 0.0))
    values += [(u + d) * scale, (10000 - u - d) * scale] + list(wet if after else (0.0, 0.0)) + [0.0, 0.0]
    got, agg = melodist.aggregate_precipitation(frame(values))
    w, a = wanted(values, 50)
    compare(ctx, got, w, [w['threshold']], 50, 'weight at a class border')


def scen_default(ctx):
    """The built-in table itself."""
    d = melodist.cascade.CascadeStatistics()
    d.fill_with_sample_data()
    for k, v in default_table().items():
        expect(ctx, getattr(d, k), v, 'built-in table ' + k)
    ctx.observe(d.p01, d.p10, d.pxx, d.wxx)


def scen_short(ctx):
    """Short series: undefined classes fall back to the defaults."""
    n = ctx.pick([4, 5, 8, 9] if ctx.tier == 'quick' else [4, 5, 6, 7, 8, 9, 10, 11], 'length')
    for values in itertools.product([0.0, 2.0], repeat=n):
        if sum(values[:n // 2 * 2]) == 0:
            continue
        got, agg = melodist.aggregate_precipitation(frame(values))
        w, a = wanted(values, 50)
        compare(ctx, got, w, [w['threshold']], 50, 'series %s' % (values,))
        expect(ctx, agg.precip, a, 'aggregated amounts')


def scen_nosplit(ctx):
    """All classes occur, but some never with two-sided branching (uniform weights)."""
    drop = ctx.pick(list(itertools.product([0, 1], range(4))), 'class without two-sided branching')
    base = base_word()
    p = 50
    e, agg = ref.estimate(base, p)
    values = list(base)
    for i, v in enumerate(agg):
        if v > 0 and (int(v > e['threshold']), ref.position(agg, i)) == drop:
            values[2 * i], values[2 * i + 1] = (v, 0.0) if i % 2 else (0.0, v)
    got, _ = melodist.aggregate_precipitation(frame(values), percentile=p)
    w, _ = wanted(values, p)
    ctx.check(not w['undefined'], 'bad construction')
    compare(ctx, got, w, [w['threshold']], p, 'no two-sided branching in %s' % (drop,))


PARTITIONS = [
    [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]],
    [[1, 2, 12], [5, 3, 4], [8, 7, 6], [9, 10, 11]],
    [[4, 5, 6, 7, 8, 9], [10, 11, 12, 1, 2, 3]],
    [list(range(1, 13))],
    [[1, 3, 5, 7, 9, 11], [2, 4, 6, 8, 10, 12]],
    [[6, 7], [1], [12, 2, 3, 4, 5, 8, 9, 10, 11]],
]


def year(missing, seed=3):
    """Some days of each month with month-dependent patterns (two years)."""
    idx = []
    for y in (2015, 2016):
        for m in range(1, 13):
            idx.append(pd.date_range('%d-%02d-%02d' % (y, m, 3 + m), periods=24 * 2, freq='h'))
    idx = idx[0].append(idx[1:])
    n = len(idx)
    k = np.arange(n)
    # a fixed mixture of wet and dry spells, different in every month
    v = ((k * (7 + idx.month.to_numpy()) + (k // 5) ** 2 * seed) % 11).astype(float)
    v = np.where(v < 5 + (k // 7) % 3, 0.0, v * 0.25)
    if missing:
        v[(k % 13) == 4] = np.nan
        v[(k // 24) % 9 == 2] = np.nan
    return pd.Series(v, index=idx)


def scen_seasons(ctx):
    part = ctx.pick(PARTITIONS, 'seasons')
    order = ctx.choose(2 * len(part), 'order')
    rot = order % len(part)
    part = part[rot:] + part[:rot]
    if order >= len(part):
        part = part[::-1]
    how = ctx.pick(['lists', 'arrays', 'station statistics'], 'how')
    months = part if how == 'lists' else [np.array(m) for m in part]
    missing = bool(ctx.choose(2, 'missing values'))
    avg = not ctx.choose(2, 'per level')
    p = ctx.pick([(50, 75)[order % 2]] if ctx.tier == 'quick' else [50, 75, 25, 12.5], 'percentile')
    obs = year(missing)
    df = pd.DataFrame(dict(temp=280.0, precip=obs))
    before = df.copy(deep=True)
    if how == 'station statistics':
        st = melodist.StationStatistics(df)
        st.calc_precipitation_stats(months=months, avg_stats=avg, percentile=p)
        got = st.precip.stats
        ctx.check(len(st.precip.months) == len(part) and all(
            sorted(int(x) for x in a) == sorted(b) for a, b in zip(st.precip.months, part)),
            'the seasons stored are %s', st.precip.months)
        data = st.data
        ctx.check(data.equals(before), 'the observations of the statistics object were modified')
    else:
        got = melodist.build_casc(df, months=months, avg_stats=avg, percentile=p)
    ctx.check(df.equals(before), 'the observations were modified')
    ctx.check(len(got) == len(part), '%s seasons, expected %s', len(got), len(part))
    for g, m in zip(got, part):
        check_all(ctx, obs, m, True, None, avg, p, g, 'season %s' % (m,))


def scen_turns(ctx):
    """Wet hours around midnight at the turn of every month."""
    part = ctx.pick(PARTITIONS + [[[m] for m in range(1, 13)]], 'seasons')
    avg = not ctx.choose(2, 'per level')
    wet = ctx.pick([(0, 23), (0,), (23, 1), (0, 1, 2, 23)], 'wet hours')
    idx = [pd.date_range(pd.Timestamp(2015 + y, m, 1) - pd.Timedelta(hours=36), periods=24 * 3, freq='h')
           for y in (0, 1) for m in range(1, 13)]
    idx = idx[0].append(idx[1:])
    k = np.arange(len(idx))
    v = np.where(np.isin(idx.hour, wet), 1.0 + (k * 7) % 11 * 0.25 + 0.03125 * idx.month, 0.0)
    obs = pd.Series(np.where((k // 6) % 5 == 2, 2.0, v), index=idx)
    got = melodist.build_casc(pd.DataFrame(dict(precip=obs)), months=part, avg_stats=avg)
    for g, m in zip(got, part):
        check_all(ctx, obs, m, True, None, avg, 50, g, 'season %s' % (m,))


def scen_default_months(ctx):
    """Without seasons the whole year is one season."""
    avg = not ctx.choose(2, 'per level')
    how = ctx.choose(2, 'via station statistics')
    obs = year(True, seed=5)
    df = pd.DataFrame(dict(precip=obs))
    if how:
        st = melodist.StationStatistics(df)
        st.calc_precipitation_stats(avg_stats=avg)
        got = st.precip.stats
    else:
        got = melodist.build_casc(df, avg_stats=avg)
    ctx.check(len(got) == 1, '%s seasons', len(got))
    check_all(ctx, obs, range(1, 13), True, None, avg, 50, got[0], 'whole year')


def scen_isolation(ctx):
    """Changing the observations of one month changes no season without that month."""
    part = ctx.pick(PARTITIONS[:3], 'seasons')
    month = ctx.choose(12, 'month') + 1
    change = ctx.pick(['missing', 'double', 'dry hour'], 'change')
    obs = year(False)
    other = obs.copy()
    pos = np.flatnonzero(other.index.month == month)
    if change == 'missing':
        other.iloc[pos[:10]] = np.nan
    elif change == 'double':
        other.iloc[pos] = other.iloc[pos] * 2
    else:
        other.iloc[pos[::3]] = 0.0
    a = melodist.build_casc(pd.DataFrame(dict(precip=obs)), months=part)
    b = melodist.build_casc(pd.DataFrame(dict(precip=other)), months=part)
    for x, y, m in zip(a, b, part):
        ctx.work += 1
        if month not in m:
            ctx.check(x == y, 'season %s depends on month %s', m, month)
        else:
            check_all(ctx, other, m, True, None, True, 50, y, 'season %s' % (m,))


def scen_fivemin(ctx):
    level = ctx.pick([9, 10, 11], 'depth')
    avg = not ctx.choose(2, 'per level')
    seed = ctx.pick([3, 5], 'pattern')
    p = ctx.pick([50, 75], 'percentile')
    n = 2 ** level * 3 + 300
    k = np.arange(n)
    v = ((k * 7 + (k // 5) ** 2 * seed) % 11).astype(float)
    v = np.where((v < 5 + (k // 7) % 3) | ((k // 60) % 3 == 1), 0.0, v * 0.25)
    v[k % 97 == 5] = np.nan
    df = frame(v, '2016-02-20', '5min')
    months = [list(range(1, 13))] if seed == 3 else None
    before = df.copy(deep=True)
    got = melodist.build_casc(df, hourly=False, level=level, months=months, avg_stats=avg, percentile=p)
    ctx.check(df.equals(before), 'the observations were modified')
    check_all(ctx, df.precip, range(1, 13), False, level, avg, p, got[0], 'five-minute data')


def scenarios(tier):
    return [('words', scen_words), ('magnitudes', scen_scales), ('blocks', scen_blocks), ('short', scen_short), ('one-sided', scen_nosplit),
            ('borders', scen_borders), ('built-in', scen_default),
            ('seasons', scen_seasons), ('whole-year', scen_default_months),
            ('turns', scen_turns), ('isolation', scen_isolation), ('five-minutes', scen_fivemin)]
