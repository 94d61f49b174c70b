"""C30: each season's days use that season's cascade statistics."""
import itertools

import numpy as np
import pandas as pd

from .. import casc, ref_cascade
from . import c04
from ..common import NAN, days, expect, hours_of, per_day
from ..repo import melodist

RULE = ('choice = assignment of months to seasons, order of seasons, order of months, container types, series, '
        'averaged or per-level statistics; every season has statistics with its own deterministic branching, '
        'every hour compared with the branching of its month\'s season')
BOUNDS = dict(two_seasons='all 2-colourings of 6 groups of months', three='all 3-colourings of 4 groups, all orders',
              monthly='12 seasons, 4 orders', short='series across each of the 12 month ends')
ASSUMPTIONS = ['a season with days in the series has at least two of them']

ACTIONS = ['01', '10', 0, 6, 2, 4]


def const(action, threshold):
    return casc.policy_stats({(i, j): action for i in range(2) for j in range(4)}, threshold)


def season_stats(k, per_level):
    """k-th season: distinct branching at the first two levels (per level) or at all levels."""
    if per_level:
        acts = [ACTIONS[k % 6], ACTIONS[(k // 6 + k) % 6], 3, 3, 3]        # first branching first
        stat = [const(a, [2.0]) for a in reversed(acts)]                    # lists start with the finest level
        return acts, stat
    a = ACTIONS[k % 6]
    return [a] * 5, const(a, casc.THR5)


def shape(acts):
    """Hourly fractions of a day."""
    v = [1.0]
    for a in acts:
        v = ref_cascade.branch(v, 0.5, lambda i, j, a=a: a)
    return np.array(ref_cascade.to_hours(v))


def run(ctx, index, amounts, seasons, stats, acts, container=list):
    """seasons: list of lists of months."""
    df = pd.DataFrame(dict(precip=amounts), index=index)
    st = melodist.Station(lon=8.9, lat=51.3, timezone=1, data_daily=df)
    st.statistics.precip.months = [container(s) for s in seasons]
    st.statistics.precip.stats = list(stats)
    np.random.seed(3)
    st.disaggregate_precipitation(method='cascade')
    got = per_day(st.data_disagg.precip)
    ctx.check(len(got) == len(index), '%d days, expected %d', len(got), len(index))
    of = {m: k for k, s in enumerate(seasons) for m in s}
    sh = [shape(a) for a in acts]
    want = np.array([a * sh[of[d.month]] for d, a in zip(index, amounts)])
    bad = [i for i in range(len(index)) if not np.allclose(got[i], want[i], rtol=1e-9, atol=1e-9, equal_nan=True)]
    ctx.work += want.size
    if bad:
        i = bad[0]
        ctx.fail('%d days differ, first %s (%s mm, season %s of %s): got %s, expected %s' % (
            len(bad), index[i].date(), amounts[i], of[index[i].month], [list(s) for s in seasons],
            np.round(got[i], 3).tolist(), np.round(want[i], 3).tolist()))
    ctx.observe(np.round(got, 6))


def year(start='2015-01-01', n=365):
    """Three wet days per month, on the first, the last and one in between; one dry, one missing."""
    d = days(start, n)
    v = np.full(n, NAN)
    for i, t in enumerate(d):
        if t.day == 1 or t.is_month_end:
            v[i] = 1.0 + 0.1 * t.month + 0.01 * i
        elif t.day == 15:
            v[i] = 10.0 + 0.01 * i
        elif t.day == 16:
            v[i] = 0.0
    return d, v


ARRANGE = [lambda m: sorted(m), lambda m: sorted(m, reverse=True),
           lambda m: sorted(m, key=lambda x: ((x * 5) % 13, x))]
CONTAINERS = [list, np.array, tuple]


def assign(groups, colours, n):
    return [[m for g, c in zip(groups, colours) for m in g if c == k] for k in range(n)]


GROUPS6 = [(1, 2), (3,), (4, 5, 6), (7, 8), (9, 10, 11), (12,)]
GROUPS4 = [(12, 1), (2, 3, 4, 5), (6, 7), (8, 9, 10, 11)]


def scen_two(ctx):
    """All assignments of six groups of months to two seasons."""
    colours = [0] + [ctx.choose(2, 'season of months %s' % (g,)) for g in GROUPS6[1:]]
    seasons = assign(GROUPS6, colours, 2)
    if not seasons[1]:
        seasons = seasons[:1]
    if ctx.choose(2, 'order of the seasons'):
        seasons = seasons[::-1]
    arrange = sum(colours) % 3
    per_level = ctx.choose(2, 'per level') == 1
    seasons = [ARRANGE[arrange](s) for s in seasons]
    pairs = [season_stats(k, per_level) for k in range(len(seasons))]
    d, v = year()
    run(ctx, d, v, seasons, [p[1] for p in pairs], [p[0] for p in pairs], CONTAINERS[arrange])


def scen_three(ctx):
    """All assignments of four groups to three seasons, all orders."""
    colours = [0] + [ctx.choose(3, 'season of months %s' % (g,)) for g in GROUPS4[1:]]
    seasons = [s for s in assign(GROUPS4, colours, 3) if s]
    seasons = ctx.pick(list(itertools.permutations(seasons)), 'order of the seasons')
    seasons = [ARRANGE[sum(colours) % 3](s) for s in seasons]
    pairs = [season_stats(k + 1, sum(colours) % 2 == 1) for k in range(len(seasons))]
    d, v = year('2015-07-10', 366)
    run(ctx, d, v, seasons, [p[1] for p in pairs], [p[0] for p in pairs])


def scen_monthly(ctx):
    """Twelve or four seasons in several orders, several years."""
    kind = ctx.pick(['monthly', 'DJF', 'JFM', 'half years', 'all'], 'kind')
    order = ctx.choose(4, 'order')
    start, n = ctx.pick([('2015-01-01', 365), ('2015-11-01', 500), ('2016-02-01', 29), ('2014-12-01', 62)], 'series')
    per_level = ctx.choose(2, 'per level') == 1
    seasons = {'monthly': [[m] for m in range(1, 13)],
               'DJF': [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]],
               'JFM': [[1, 2, 3], [4, 5, 6], [7, 8, 9], [10, 11, 12]],
               'half years': [[11, 12, 1, 2, 3, 4], [5, 6, 7, 8, 9, 10]],
               'all': [list(range(1, 13))]}[kind]
    k = len(seasons)
    perm = [list(range(k)), list(range(k))[::-1], [(i + k // 2) % k for i in range(k)],
            sorted(range(k), key=lambda i: ((i * 5) % 13, i))][order]
    seasons = [seasons[i] for i in perm]
    if kind == 'monthly':
        per_level = True
    pairs = [season_stats(i, per_level) for i in range(k)]
    d, v = year(start, n)
    run(ctx, d, v, seasons, [p[1] for p in pairs], [p[0] for p in pairs], CONTAINERS[order % 3])


def scen_short(ctx):
    """Short series across each month end; wet everywhere."""
    m = ctx.choose(12, 'month end')
    before = ctx.pick([2, 3], 'days before')
    after = ctx.pick([2, 4], 'days after')
    flip = ctx.choose(2, 'order of the seasons')
    amount = ctx.pick([1.0, 7.5], 'amount')
    end = pd.Timestamp(year=2016, month=m + 1, day=1)
    d = days(end - pd.Timedelta(days=before), before + after)
    v = amount * (1 + np.arange(len(d)) * 0.25)
    other = 12 if m == 0 else m
    seasons = [[m + 1, 1 + (m + 4) % 12], [x for x in range(1, 13) if x not in (m + 1, 1 + (m + 4) % 12)]]
    ctx.check(other in seasons[1], 'harness')
    if flip:
        seasons = seasons[::-1]
    pairs = [season_stats(k, False) for k in range(2)]
    run(ctx, d, v, seasons, [p[1] for p in pairs], [p[0] for p in pairs])


def scen_sparse(ctx):
    """Seasons of which only some days are known or wet."""
    before = [ctx.pick([2.5, 0.0, NAN], 'amount') for _ in range(3)]
    after = [ctx.pick([2.5, 0.0, NAN], 'amount') for _ in range(2)]
    flip = ctx.choose(2, 'order of the seasons')
    d = days('2016-01-29', 5)
    seasons = [[1, 7], [2, 3, 4, 5, 6, 8, 9, 10, 11, 12]]
    if flip:
        seasons = seasons[::-1]
    pairs = [season_stats(k, False) for k in range(2)]
    run(ctx, d, np.array(before + after), seasons, [p[1] for p in pairs], [p[0] for p in pairs])


# ---- statistics calculated per season --------------------------------------------------------
def observed():
    """Hourly data of one year, seven days per month; the branching differs from month to month."""
    word = np.array(c04.base_word()[:168])
    out = []
    for m in range(1, 13):
        w = np.roll(word, 12 * m)
        if m % 2:
            w = w[::-1]
        out.append(pd.Series(w * (0.5 + 0.25 * m), index=hours_of(days('2015-%02d-11' % m, 7))))
    return pd.DataFrame(dict(precip=pd.concat(out)))


def scen_calculated(ctx):
    """calc_precipitation_stats(months) = statistics of the own months only, applied to the same months."""
    colours = [ctx.choose(2, 'season of months %s' % (g,)) for g in GROUPS4]
    seasons = [s for s in assign(GROUPS4, colours, 2) if s]
    if ctx.choose(2, 'order of the seasons'):
        seasons = seasons[::-1]
    avg = ctx.choose(2, 'per level') == 0
    pct = [50, 25][sum(colours) % 2]
    arrange = ctx.choose(2, 'order of the months')
    seasons = [ARRANGE[2 * arrange](s) for s in seasons]
    data = observed()
    st = melodist.Station(lon=8.9, lat=51.3, timezone=1)
    st.statistics.data = data
    st.statistics.calc_precipitation_stats(months=seasons, avg_stats=avg, percentile=pct)
    p = st.statistics.precip
    ctx.check([sorted(int(x) for x in m) for m in p.months] == [sorted(s) for s in seasons],
              'stored seasons %s, expected %s', p.months, seasons)
    ctx.check(len(p.stats) == len(seasons), '%d statistics for %d seasons', len(p.stats), len(seasons))
    for k, s in enumerate(seasons):
        c04.check_all(ctx, data.precip, s, True, 9, avg, pct, p.stats[k], 'season %s' % s)
    # every day is assigned
    d, v = year('2015-12-01', 130)
    st.data_daily = pd.DataFrame(dict(precip=v), index=d)
    np.random.seed(1)
    st.disaggregate_precipitation(method='cascade')
    expect(ctx, per_day(st.data_disagg.precip).sum(axis=1), v, 'daily sums')


def scen_default(ctx):
    """Default seasons and replaced statistics."""
    first = ctx.choose(3, 'first seasons')
    second = ctx.choose(3, 'second seasons')
    data = observed()
    options = [None, [[12, 1, 2], [3, 4, 5, 6, 7, 8, 9, 10, 11]], [[m for m in range(1, 13) if m % 2 == k]
                                                                  for k in (1, 0)]]
    st = melodist.Station(lon=8.9, lat=51.3, timezone=1)
    st.statistics.data = data
    for o in (options[first], options[second]):
        if o is None:
            st.statistics.calc_precipitation_stats()
        else:
            st.statistics.calc_precipitation_stats(months=o)
        p = st.statistics.precip
        want = [list(range(1, 13))] if o is None else o
        ctx.check([[int(x) for x in m] for m in p.months] == want, 'seasons %s, expected %s', p.months, want)
        for k, s in enumerate(want):
            c04.check_all(ctx, data.precip, s, True, 9, True, 50, p.stats[k], 'season %s' % s)


def scen_subset(ctx):
    """Selection of the days of given months, in order of time."""
    months = [m for m in range(1, 13) if ctx.choose(2, 'month %d' % m)] if ctx.tier == 'thorough' else \
        ctx.pick([list(c) for k in (1, 2, 3) for c in itertools.combinations(range(1, 13), k)], 'months')
    if not months:
        return
    rows = pd.date_range('2014-11-28 06:00', '2017-02-03', freq='17h')
    df = pd.DataFrame(dict(precip=np.arange(len(rows)) + 0.5, x=1.0), index=rows)
    want = df[[t.month in months for t in rows]]
    for m in (months, months[::-1], tuple(months), np.array(months)):
        got = melodist.seasonal_subset(df, m)
        ctx.check(got.equals(want), 'months %s: %d rows, expected %d', m, len(got), len(want))
    gaps = df.drop(df.index[5:9])
    for got in (melodist.seasonal_subset(gaps, list(range(1, 13))), melodist.seasonal_subset(gaps, range(12, 0, -1))):
        ctx.check(got.equals(gaps), 'twelve months: %d rows of %d', len(got), len(gaps))
    for got in (melodist.seasonal_subset(df), melodist.seasonal_subset(df, 'all'),
                melodist.seasonal_subset(df, months='all')):
        ctx.check(got.equals(df), 'all months: %d rows of %d', len(got), len(df))
    ctx.observe(want)


def scenarios(tier):
    return [('two', scen_two), ('three', scen_three), ('monthly', scen_monthly), ('short', scen_short), ('sparse', scen_sparse),
            ('calculated', scen_calculated), ('default', scen_default),
            ('subset', scen_subset)]
