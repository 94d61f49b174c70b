"""C02: five-minute cascade conserves daily precipitation at every depth."""
import numpy as np
import pandas as pd

from .. import casc, ref_cascade
from ..common import NAN, ONE, cyc, days, expect, expect_index, scattered, scripted_random
from ..repo import melodist
from .c01 import verify

RULE = ('choice = depth, statistics, daily values, absent days, draws (cyclic words and deviating '
        'draws); the fine intervals and the five-minute series are both checked')
BOUNDS = dict(
    depth='9, 10, 11',
    daily='all words of 2 days over 4 values, of 3 days over 3 values; all subsets of absent days in 6, '
          'amounts from 1e-6 to 2000',
    draws='6 cyclic draw words; one deviating draw among the first draws at every depth',
)
ASSUMPTIONS = ['daily totals are finite and non-negative or missing']

PER_DAY = {9: 512, 10: 1024, 11: 2048}
DRAWS = [(0.5,), (0.2, 0.8), (0.93, 0.04, 0.6), (ONE, 0.1), (0.0, 0.7, 0.4), (0.999, 0.3, 0.01, 0.55)]


def table(kind, level):
    if kind == 'levels':
        makers = [casc.sample, casc.all_split, casc.short_sum, casc.mixed]
        return [makers[i % 4]([casc.THR11[i]]) for i in range(level)]
    return getattr(casc, kind)(casc.THR11[:level])


def fivemin_of(index):
    return pd.DatetimeIndex([d + pd.Timedelta(minutes=5 * k) for d in index for k in range(288)])


def run(ctx, level, kind, index, daily, source):
    s = pd.Series(list(daily), index=index, dtype=float)
    with scripted_random(source):
        res = melodist.disagg_prec_cascade(s, table(kind, level), hourly=False, level=level, test=True)
    out = res[-1]
    expect_index(ctx, out.index, fivemin_of(index), 'five-minute index')
    verify(ctx, index, daily, out, 288)
    fine = np.asarray(res[level - 1], dtype=float)
    want = np.array(ref_cascade.to_5min(fine, PER_DAY[level]))
    want[np.repeat(np.isnan(np.asarray(daily, dtype=float)), 288)] = np.nan
    expect(ctx, out, want, 'five-minute values from the fine intervals', index=out.index)
    ctx.observe(out)
    return out


def scen_words(level):
    def fn(ctx):
        n = ctx.pick([2, 3], 'days')
        values = [7.3, 0.0, NAN, 0.2] if n == 2 else [7.3, 0.0, NAN]
        daily = [ctx.pick(values, 'total') for _ in range(n)]
        kind = ctx.pick(['sample', 'all_split', 'short_sum', 'mixed', 'levels'], 'statistics')
        index = days(['2016-02-28', '2015-12-31'][n % 2], n)
        draws = DRAWS if ctx.tier == 'thorough' else DRAWS[:3]
        if ctx.tier != 'thorough' and kind != 'mixed':
            draws = [DRAWS[(level + len(kind) + sum(VALUES.get(x, 2) for x in daily)) % 6]]
        word = ctx.pick(draws, 'draws')
        run(ctx, level, kind, index, daily, cyc(word))
    return fn


VALUES = {7.3: 0, 0.0: 1, 0.2: 3}


def scen_gaps(level):
    def fn(ctx):
        base = days('2016-02-26', 6)
        keep = [True] + [bool(ctx.choose(2, 'keep')) for _ in range(4)] + [True]
        index = base[keep]
        totals = np.array([1.5, 0.0, 4.0, 20.0, NAN, 8.0])[keep]
        kind = ctx.pick(['levels', 'mixed'] if ctx.tier == 'thorough' else ['mixed'], 'statistics')
        word = ctx.pick(DRAWS[1:4] if ctx.tier == 'thorough' else DRAWS[2:3], 'draws')
        run(ctx, level, kind, index, totals, cyc(word))
    return fn


def scen_years(level):
    def fn(ctx):
        index = scattered()
        pos = ctx.choose(len(index) + 1, 'missing')
        daily = [NAN if i + 1 == pos else 1.5 + i * (i % 3) for i in range(len(index))]
        run(ctx, level, 'mixed', index, daily, cyc(DRAWS[2]))
    return fn


def scen_magnitudes(level):
    def fn(ctx):
        daily = [ctx.pick([1e-6, 0.03, 150.0, 2000.0], 'total') for _ in range(2)]
        word = ctx.pick(DRAWS[:2] + [(0.2,), (0.3,)], 'draws')
        run(ctx, level, ctx.pick(['mixed', 'levels'], 'statistics'), days('2015-12-31', 2), daily, cyc(word))
    return fn


def scen_long(level):
    def fn(ctx):
        n = ctx.pick([160, 370], 'days') if ctx.tier == 'thorough' else 160
        absent = ctx.pick([1, n // 2, None], 'absent day')
        base = days('2015-10-20', n)
        index = base if absent is None else base.delete(absent)
        daily = [NAN if i % 37 == 5 else (0.0, 3.0, 0.4)[i % 3] for i in range(len(index))]
        run(ctx, level, 'mixed', index, daily, cyc(DRAWS[2]))
    return fn


def scen_dev(level):
    def fn(ctx):
        menu = [0.5, 0.0, ONE, 0.1]
        k = 60 if ctx.tier == 'thorough' else 12
        state = dict(n=0)

        def source():
            state['n'] += 1
            if state['n'] <= k:
                return menu[ctx.choose(len(menu), 'draw', dev=True)]
            return 0.5

        run(ctx, level, 'short_sum' if level == 10 else 'sample', days('2016-12-31', 2), [3.0, 0.4],
            source)
    return fn


def scen_shift(ctx):
    level = ctx.pick([9, 10, 11], 'depth')
    shift = ctx.pick([1, 84, -3], 'shift')
    index = days('2016-02-27', 2)
    s = pd.Series([5.0, 3.0], index=index)
    out = []
    for sh in (0, shift):
        with scripted_random(cyc((0.3, 0.9, 0.6))):
            out.append(melodist.disagg_prec_cascade(s, casc.mixed(casc.THR11[:level]), hourly=False,
                                                    level=level, shift=sh))
    expect_index(ctx, out[1].index, fivemin_of(index), 'five-minute index')
    v = np.asarray(out[0])
    want = np.full(len(v), np.nan)
    if shift > 0:
        want[shift:] = v[:-shift]
    else:
        want[:shift] = v[-shift:]
    expect(ctx, out[1], want, 'shifted series')
    ctx.observe(out[1])


def scenarios(tier):
    out = []
    for level in (9, 10, 11):
        out.append(('words/%d' % level, scen_words(level)))
        out.append(('absent-days/%d' % level, scen_gaps(level)))
        out.append(('years/%d' % level, scen_years(level)))
        if level == 9 or tier == 'thorough':
            out.append(('long/%d' % level, scen_long(level)))
        out.append(('magnitudes/%d' % level, scen_magnitudes(level)))
        out.append(('deviating-draws/%d' % level, scen_dev(level), 1))
    return out + [('shift', scen_shift)]
