"""C01: hourly cascade conserves daily precipitation, for every sequence of random draws."""
import numpy as np
import pandas as pd

from .. import casc
from ..common import (NAN, ONE, cyc, days, expect_index, hours_of, per_day, scattered,
                      scripted_random, words)
from ..repo import melodist

RULE = ('choice = daily values (every word over the alphabet), branching statistics, and the answer of '
        'the random number generator at every draw; every execution runs the real '
        'disaggregation and checks all days')
BOUNDS = dict(
    daily='all words of 2..3 days over {0, missing, 0.1, 7.3, 250} (thorough: 2..4)',
    draws_words='all cyclic draw words up to length 3 over {0.5, 0, 0.93} (thorough: 4 values, length 4)',
    draws_deviation='every placement of up to 1 (thorough 2) deviating draws among all draws of a run',
    statistics='sample table, always-split, probabilities summing to just below 1, mixed, per-level list',
)
ASSUMPTIONS = ['daily totals are finite and non-negative or missing',
               'random numbers come from the uniform generators of numpy.random']

VALUES = [7.3, 0.0, NAN, 0.1, 250.0]
STARTS = ['2016-02-28', '2015-12-31', '2016-01-31']


def kinds():
    t = casc.THR5
    return dict(
        sample=casc.sample(t),
        split=casc.all_split(t),
        short=casc.short_sum(t),
        mixed=casc.mixed(t),
        levels=[casc.sample([0.4]), casc.all_split([0.9]), casc.short_sum([1.7]),
                casc.mixed([3.1]), casc.sample([6.3])],
    )


def verify(ctx, index, daily, out, per=24, tol=1e-9):
    daily = np.asarray(daily, dtype=float)
    ctx.check(out is not None, 'no result')
    v = per_day(out, per)
    ctx.check(len(v) == len(daily), 'got %s days of values, expected %s', len(v), len(daily))
    scale = 1.0 + np.nansum(daily)
    for d, total in enumerate(daily):
        ctx.work += 1
        x = v[d]
        if np.isnan(total):
            ctx.check(np.isnan(x).all(), 'day %s is missing, but got values %s', index[d], x)
            continue
        ctx.check(np.isfinite(x).all(), 'day %s (total %s): missing or infinite values %s',
                  index[d], total, x)
        ctx.check((x >= 0).all(), 'day %s: negative precipitation %s', index[d], x.min())
        ctx.check(abs(x.sum() - total) <= tol * scale, 'day %s: total %s became %s', index[d], total,
                  x.sum())
        if total == 0:
            ctx.check((x == 0).all(), 'dry day %s is wet: %s', index[d], x.max())


def run(ctx, index, daily, opts, source, shift=None, via='cascade'):
    s = daily if isinstance(daily, pd.Series) else pd.Series(list(daily), index=index, dtype=float)
    kw = {} if shift is None else dict(shift=shift)
    with scripted_random(source):
        if via == 'cascade':
            return melodist.disagg_prec_cascade(s, opts, **kw)
        if via == 'general':
            return melodist.disagg_prec(s, method='cascade', cascade_options=opts, **kw)
        st = melodist.Station(lon=8, lat=50, timezone=1, data_daily=pd.DataFrame(dict(precip=s)))
        st.statistics.precip.update(months=[np.arange(12) + 1], stats=[opts])
        st.disaggregate_precipitation(method='cascade', **kw)
        return st.data_disagg.precip


def scen_words(kind):
    def fn(ctx):
        deep = ctx.tier == 'thorough'
        n = ctx.pick([2, 3, 4] if deep else [2, 3], 'days')
        daily = [ctx.pick(VALUES, 'total of day %d' % i) for i in range(n)]
        start = STARTS[(sum(VALUES.index(x) if x == x else 2 for x in daily)) % len(STARTS)]
        index = days(start, n)
        opts = kinds()[kind]
        menu = [0.5, 0.0, 0.93] + ([ONE] if deep else [])
        for word in words(menu, [1, 2, 3] + ([4] if deep and n == 2 else [])):
            out = run(ctx, index, daily, opts, cyc(word))
            try:
                expect_index(ctx, out.index, hours_of(index), 'hourly index')
                verify(ctx, index, daily, out)
            except Exception:
                ctx.note('draws (repeated)', word)
                raise
            ctx.observe(out)
            ctx.cover(draw_words=1)
    return fn


def scen_dev(kind, daily, start):
    """Deviations of single draws: default answer 0.5, deviating answers at any position."""
    def fn(ctx):
        index = days(start, len(daily))
        menu = [0.5, 0.0, ONE, 0.1]

        def source():
            return menu[ctx.choose(len(menu), 'draw', dev=True)]

        out = run(ctx, index, daily, kinds()[kind], source)
        ctx.note('draws', len(ctx.choices))
        expect_index(ctx, out.index, hours_of(index), 'hourly index')
        verify(ctx, index, daily, out)
        ctx.observe(out)
    return fn


def scen_first(kind):
    """All answers for the draws of the first boxes (full product), default afterwards."""
    def fn(ctx):
        menu = [0.5, 0.0, 0.2, 0.93, ONE]
        k = 6 if ctx.tier == 'thorough' else 4
        state = dict(n=0)

        def source():
            state['n'] += 1
            if state['n'] <= k:
                return menu[ctx.choose(len(menu), 'draw')]
            return menu[0]

        index = days('2016-12-30', 2)
        daily = [3.7, 12.0]
        out = run(ctx, index, daily, kinds()[kind], source)
        verify(ctx, index, daily, out)
        ctx.observe(out)
    return fn


def scen_gaps(ctx):
    """Days may be absent from the daily series (as for seasonal subsets)."""
    base = days('2015-12-29', 7)
    keep = [True] + [bool(ctx.choose(2, 'keep')) for _ in range(5)] + [True]
    index = base[keep]
    kind = ctx.pick(['split', 'mixed', 'levels'], 'statistics')
    nanpos = ctx.choose(3, 'missing')
    daily = np.array([1.5, 0.0, 4.0, 20.0, 0.3, 8.0, 2.5])[keep]
    if nanpos:
        daily[nanpos % len(daily)] = np.nan
    out = run(ctx, index, daily, kinds()[kind], cyc([0.31, 0.77, 0.05]))
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    verify(ctx, index, daily, out)
    ctx.observe(out)


def scen_years(ctx):
    """Equal calendar days of several years and months, every subset missing."""
    index = scattered()
    daily = [NAN if ctx.choose(2, 'missing') else 1.5 + i * (i % 3) for i in range(len(index))]
    kind = ctx.pick(['mixed', 'levels'], 'statistics')
    out = run(ctx, index, daily, kinds()[kind], cyc([0.31, 0.77, 0.05]))
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    verify(ctx, index, daily, out)
    ctx.observe(out)


def scen_shift(ctx):
    shift = ctx.pick([None, 0, 1, 7, 24, -3, 23, 48, -24, -47, 71], 'shift')
    via = ctx.pick(['cascade', 'general', 'station'], 'called through')
    word = ctx.pick([(0.5,), (0.1,), (0.5, 0.9), (0.9, 0.1)], 'draws')
    daily = ctx.pick([(5.0, 0.0, 3.0), (5.0, NAN, 3.0), (0.2, 9.0, 3.0)], 'daily')
    index = days('2016-02-27', 3)
    if via != 'station' and word == (0.5, 0.9):
        index = days('2016-02-26', 6)[[0, 3, 5]]  # with absent days
    opts = casc.mixed(casc.THR5)
    a = run(ctx, index, daily, opts, cyc(word))
    b = run(ctx, index, daily, opts, cyc(word), shift=shift, via=via)
    verify(ctx, index, daily, a)
    shift = shift or 0
    expect_index(ctx, b.index, hours_of(index), 'hourly index')
    av, bv = np.asarray(a), np.asarray(b)
    want = av.copy()
    if shift:
        want[:] = np.nan
    if shift > 0:
        want[shift:] = av[:-shift]
    elif shift < 0:
        want[:shift] = av[-shift:]
    ctx.check(np.allclose(bv, want, atol=1e-12, equal_nan=True), 'shifted by %s: %s vs %s', shift, bv,
              want)
    ctx.observe(b)


def scen_long(ctx):
    """Several years with many missing and absent days."""
    kind = ctx.pick(['mixed', 'levels'], 'statistics')
    miss = ctx.pick([3, 2, 400], 'distance of missing days')
    absent = ctx.pick([0, 1, 40], 'absent days')
    base = days('2014-11-20', 1150)
    keep = np.ones(len(base), dtype=bool)
    keep[[17 + 25 * k for k in range(absent)]] = False
    index = base[keep]
    daily = np.array([NAN if i % miss == 1 else (0.0, 3.0, 0.4, 21.0, 0.0)[i % 5] for i in range(len(index))])
    out = run(ctx, index, daily, kinds()[kind], cyc([0.31, 0.77, 0.05]))
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    verify(ctx, index, daily, out)
    ctx.observe(out)


def scen_forms(ctx):
    """Other kinds of numbers and of time axes."""
    daily = [ctx.pick([7, 0, 1, 250], 'total') for _ in range(3)]
    form = ctx.pick(['integer', 'int32', 'single', 'named', 'no freq', 'seconds', 'time zone', 'view'], 'form')
    via = ctx.pick(['cascade', 'general', 'station'], 'called through')
    kind = ctx.pick(['mixed', 'levels'], 'statistics')
    index = days('2016-02-28', 3)
    if form == 'seconds':
        index = index.as_unit('s')
    elif form == 'time zone':
        index = index.tz_localize('UTC')
    s = pd.Series(daily, index=index,
                  dtype=dict(integer='int64', int32='int32', single='float32').get(form, float))
    if form == 'named':
        s = s.rename('rain').rename_axis('date')
    elif form == 'no freq':
        s.index.freq = None
    elif form == 'view':
        s = pd.Series(np.repeat(s.to_numpy(), 2)[::2], index=index)
    out = run(ctx, index, s, kinds()[kind], cyc([0.31, 0.77, 0.05]), via=via)
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    verify(ctx, index, daily, out, tol=1e-6 if form == 'single' else 1e-9)
    ctx.observe(out)


def scen_large(ctx):
    """Orders of magnitude of daily totals next to each other."""
    daily = [ctx.pick([1e-3, 0.0, 1.0, 2000.0, 3e-5, 8e4], 'total') for _ in range(3)]
    kind = ctx.pick(['split', 'sample', 'short'], 'statistics')
    word = ctx.pick([(0.5,), (ONE, 0.1), (0.999, 0.4, 0.2)], 'draws')
    index = days('2016-06-29', 3)
    out = run(ctx, index, daily, kinds()[kind], cyc(word))
    verify(ctx, index, daily, out)
    ctx.observe(out)


def scen_station(ctx):
    """Through the Station object, statistics assigned per season."""
    seasons = ctx.pick([
        [list(range(1, 13))],
        [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]],
        [[11, 1, 3], [12, 2, 4, 5, 6, 7, 8, 9, 10]],
        [[m] for m in (3, 2, 12, 11, 1, 4, 5, 6, 7, 8, 9, 10)],
    ], 'seasons')
    pattern = ctx.pick([(3.0,), (0.0, 5.0), (NAN, 2.0, 0.0), (4.0, 0.0, 9.0, NAN, 0.2)], 'daily')
    absent = ctx.pick([(), (3,), (35, 36, 37), (1, 2, 60)], 'absent days')
    word = ctx.pick([(0.5,), (0.2, 0.8), (0.05, ONE, 0.6)], 'draws')
    kind = ctx.pick(['sample', 'mixed', 'levels'], 'statistics')
    index = days('2015-11-26', 100)
    daily = np.array([pattern[i % len(pattern)] for i in range(100)])
    keep = np.ones(100, dtype=bool)
    keep[list(absent)] = False
    st = melodist.Station(lon=8, lat=50, timezone=1,
                          data_daily=pd.DataFrame(dict(precip=daily[keep]), index=index[keep]))
    st.statistics.precip.months = seasons
    st.statistics.precip.stats = [kinds()[kind] for _ in seasons]
    with scripted_random(cyc(word)):
        st.disaggregate_precipitation(method='cascade')
    out = st.data_disagg.precip
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    want = np.where(keep, daily, np.nan)
    verify(ctx, index, want, out)
    ctx.observe(out)


def scenarios(tier):
    bound = 2 if tier == 'thorough' else 1
    out = [('words/' + k, scen_words(k)) for k in ('sample', 'split', 'short', 'mixed', 'levels')]
    for k in ('sample', 'split', 'short', 'levels'):
        out.append(('deviating-draws/wet-wet/' + k, scen_dev(k, [7.3, 2.0], '2016-02-29'), bound))
        out.append(('deviating-draws/wet-dry-missing-wet/' + k,
                    scen_dev(k, [0.6, 0.0, NAN, 30.0], '2015-12-30'), 1))
        out.append(('first-draws/' + k, scen_first(k)))
    out += [('absent-days', scen_gaps), ('years', scen_years), ('shift', scen_shift), ('long', scen_long),
            ('magnitudes', scen_large), ('forms', scen_forms),
            ('station-seasons', scen_station)]
    return out
