"""C13: wind disaggregation."""
import itertools
import math

import numpy as np
import pandas as pd

from ..common import NAN, ONE, cyc, days, expect, hours_of, scripted_random, words
from ..repo import melodist

RULE = ('choice = daily values, coefficients, draws of the random generator (cyclic words and deviating '
        'draws incl. both ends of the range); every hour compared with the reference')
BOUNDS = dict(
    daily='all words of 1..3 days over {2.5, 0, missing, 11}; absent days',
    draws='all cyclic words of length 1..3 over 4 (thorough 5) draws incl. 0 and the largest number below 1; one (thorough two) '
          'deviating draws at every hour of two days',
    cosine='5 amplitudes x 4 offsets x 7 shifts',
)
ASSUMPTIONS = ['random numbers come from the uniform generators of numpy.random']


def apply(how, index, daily, method, dtype=float, **kw):
    s = pd.Series(list(daily), index=index, dtype=dtype)
    if how == 'direct':
        return np.asarray(melodist.disaggregate_wind(s, method=method, **kw), dtype=float), index
    st = melodist.Station(data_daily=pd.DataFrame(dict(wind=s)))
    st.statistics.wind.update(kw)
    st.disaggregate_wind(method=method)
    return (st.data_disagg.wind.to_numpy(dtype=float),
            pd.date_range(index[0], index[-1], freq='D'))


def daily_words(ctx):
    n = ctx.pick([1, 2, 3], 'days')
    return [ctx.pick([2.5, 0.0, NAN, 11.0], 'wind') for _ in range(n)]


def scen_cosine(ctx):
    daily = daily_words(ctx)
    how = ctx.pick(['direct', 'station'], 'entry point')
    index = days('2016-02-28', len(daily))
    for a, b, t in itertools.product([0.3, 0.0, -0.4, 1.0, 2.0], [1.0, 0.9, 0.0, -0.5],
                                     [0.0, 3.5, 12.0, 14.2, -6.0, 24.0, 30.0]):
        out, grid = apply(how, index, daily, 'cosine', a=a, b=b, t_shift=t)
        want = [w * (b + a * math.cos(math.pi * (h - t) / 12)) for w in daily for h in range(24)]
        expect(ctx, out, want, 'cosine wind', index=hours_of(index))
        ctx.observe(out)


def scen_equal(ctx):
    daily = daily_words(ctx)
    how = ctx.pick(['direct', 'station'], 'entry point')
    index = days('2015-12-30', len(daily))
    out, _ = apply(how, index, daily, 'equal')
    expect(ctx, out, np.repeat(daily, 24), 'equal wind')
    ctx.observe(out)


def check_random(ctx, daily, out, draws):
    """draws: the numbers in the order in which they were asked for"""
    daily = np.repeat(np.asarray(daily, dtype=float), 24)
    out = np.asarray(out, dtype=float)
    ctx.check(len(out) == len(daily), 'length %s', len(out))
    miss = np.isnan(daily)
    ctx.check((np.isnan(out) == miss).all(), 'missing values differ from missing days')
    ctx.check(np.isfinite(out[~miss]).all(), 'infinite wind speed %s', out[~miss].max(initial=0))
    ctx.check((out[~miss] >= 0).all(), 'negative wind speed %s', out[~miss].min(initial=0))
    ctx.check(len(draws) == len(daily), '%s random numbers for %s hours', len(draws), len(daily))
    u = np.array(draws)
    with np.errstate(divide='ignore'):
        # either end of the range may be the one that is left out
        f = (-np.log(1.0 - u)) ** 0.3
        g = (-np.log(u)) ** 0.3
    with np.errstate(invalid='ignore'):
        a = np.isclose(out, daily * f, rtol=1e-9, equal_nan=True)
        b = np.isclose(out, daily * g, rtol=1e-9, equal_nan=True)
    ctx.check(a.all() or b.all(), 'random wind is not mean * (-log(u)) ** 0.3: %s for draws %s',
              out[:6], u[:6])


def recording(word):
    src = cyc(word)
    log = []

    def source():
        v = src()
        log.append(v)
        return v

    return source, log


def scen_random(ctx):
    daily = daily_words(ctx)
    how = ctx.pick(['direct', 'station'], 'entry point')
    index = days('2016-12-30', len(daily))
    for word in words([0.5, 0.0, ONE, 0.03] + ([0.88] if ctx.tier == 'thorough' else []), [1, 2, 3]):
        source, log = recording(word)
        with scripted_random(source):
            out, grid = apply(how, index, daily, 'random')
        check_random(ctx, daily, out, log)
        ctx.observe(out)


def scen_dev(ctx):
    menu = [0.5, 0.0, ONE, 1e-300]
    log = []

    def source():
        v = menu[ctx.choose(len(menu), 'draw', dev=True)]
        log.append(v)
        return v

    daily = [3.0, 7.0]
    with scripted_random(source):
        out, _ = apply('direct', days('2016-01-31', 2), daily, 'random')
    check_random(ctx, daily, out, log)
    ctx.observe(out)


def scen_absent(ctx):
    base = days('2016-02-26', 5)
    keep = [True] + [bool(ctx.choose(2, 'keep')) for _ in range(3)] + [True]
    how = ctx.pick(['direct', 'station'], 'entry point')
    index = base[keep]
    values = np.array([1.0, 2.0, 3.0, 4.0, 5.0])[keep]
    out, grid = apply(how, index, values, 'cosine', a=0.3, b=1.0, t_shift=14.0)
    if how == 'station':
        values = pd.Series(values, index=index).reindex(grid).to_numpy()
    want = [w * (1.0 + 0.3 * math.cos(math.pi * (h - 14.0) / 12)) for w in values for h in range(24)]
    expect(ctx, out, want, 'cosine wind')
    ctx.observe(out)


def scen_types(ctx):
    """Whole numbers and single precision give the result of the same numbers in double precision."""
    dtype = ctx.pick(['int64', 'int32', 'int8', 'float32'], 'type')
    method = ctx.pick(['equal', 'cosine', 'random'], 'method')
    how = ctx.pick(['direct', 'station'], 'entry point')
    kw = ctx.pick([dict(a=0.3, b=1.0, t_shift=14.0), dict(a=1, b=2, t_shift=3)], 'coefficients') \
        if method == 'cosine' else {}
    daily = [ctx.pick([3.0, 0.0, 12.0], 'wind') for _ in range(2)]
    out = []
    for t in (float, dtype):
        with scripted_random(cyc((0.2, 0.5, 0.93))):
            out.append(apply(how, days('2016-03-30', 2), daily, method, dtype=t, **kw)[0])
    tol = 1e-5 if dtype == 'float32' else 1e-9
    expect(ctx, out[1], out[0], 'wind from %s values' % dtype, rtol=tol, atol=tol)
    ctx.observe(out[0])


def scen_proportional(ctx):
    """Scaling the daily values scales the result."""
    f = ctx.pick([0.0, 2.0, 10.0], 'factor')
    method = ctx.pick(['equal', 'cosine', 'random'], 'method')
    kw = dict(a=0.3, b=1.0, t_shift=14.0) if method == 'cosine' else {}
    daily = np.array([2.0, 0.5, 9.0])
    out = []
    for d in (daily, daily * f):
        with scripted_random(cyc((0.2, 0.5, 0.93))):
            out.append(apply('direct', days('2016-03-30', 3), d, method, **kw)[0])
    expect(ctx, out[1], out[0] * f, 'scaled wind')
    ctx.observe(out[1])


def scenarios(tier):
    return [('cosine', scen_cosine), ('equal', scen_equal), ('random', scen_random),
            ('random-deviations', scen_dev, 2 if tier == 'thorough' else 1),
            ('absent-days', scen_absent), ('types', scen_types), ('proportional', scen_proportional)]
