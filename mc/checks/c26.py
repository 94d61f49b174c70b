"""C26: interpolation passes through every given observation."""
import itertools

import numpy as np
import pandas as pd

from ..common import NAN, days, expect, expect_index, hours_of
from ..repo import melodist

RULE = ('choice = observation hours, order of the columns, missing observations, limit and direction, number '
        'of days; every hour compared with a plain linear interpolation')
BOUNDS = dict(hours='all pairs of hours, 20 triples, all 24 single hours, all 24 hours at once',
              missing='all patterns of 3 days x 3 observations', limits='1, 5, 24, 30, none; both directions',
              days='1..4, absent days')
ASSUMPTIONS = ['every column has its own hour']


def value(k, d):
    return 270.0 + 3.0 * k + 2.5 * d + (k * d) % 3


def reference(obs, n, limit=24, direction='both'):
    """obs: {hour number: value} on the grid of n hours."""
    out = []
    pos = sorted(obs)
    for t in range(n):
        if t in obs:
            out.append(obs[t])
            continue
        left = [p for p in pos if p < t]
        right = [p for p in pos if p > t]
        a = left[-1] if left else None
        b = right[0] if right else None
        near_a = a is not None and (limit is None or t - a <= limit) and direction in ('both', 'forward')
        near_b = b is not None and (limit is None or b - t <= limit) and direction in ('both', 'backward')
        if not (near_a or near_b):
            out.append(NAN)
        elif a is None:
            out.append(obs[b])
        elif b is None:
            out.append(obs[a])
        else:
            out.append(obs[a] + (obs[b] - obs[a]) * (t - a) / (b - a))
    return out


def run(ctx, hrs, n, missing=(), absent=(), start='2016-02-28', order=None, value=value, **kw):
    names = ['T%d' % h for h in hrs]
    idx = days(start, n)
    df = pd.DataFrame({nm: [value(k, d) for d in range(n)] for k, nm in enumerate(names)}, index=idx, dtype=float)
    for d, k in missing:
        df.iloc[d, k] = NAN
    df = df.drop(index=idx[list(absent)])
    given = list(zip(names, hrs))
    if order is not None:
        given = [given[k] for k in order]
    st = melodist.Station(data_daily=df)
    got = st.interpolate(dict(given), **kw)
    obs = {}
    for d in range(n):
        for k, h in enumerate(hrs):
            if d not in absent and (d, k) not in missing:
                obs[24 * d + h] = value(k, d)
    expect_index(ctx, got.index, hours_of(idx), 'hours')
    want = reference(obs, 24 * n, kw.get('limit', 24), kw.get('limit_direction', 'both'))
    v = got.to_numpy(dtype=float)
    for t, x in obs.items():
        ctx.check(v[t] == x, 'observation %s at hour %d became %s', x, t, v[t])
    expect(ctx, v, want, 'interpolated values', index=got.index)
    ctx.observe(v)


def scen_pairs(ctx):
    a = ctx.choose(24, 'hour')
    b = ctx.choose(24, 'hour')
    n = 1 + ctx.choose(2, 'days')
    run(ctx, [a] if a == b else [a, b], n)


TRIPLES = [(7, 14, 19), (7, 14, 21), (0, 12, 23), (1, 2, 3), (6, 18, 12), (0, 1, 2), (21, 22, 23), (23, 0, 11)]


def scen_orders(ctx):
    hrs = ctx.pick(TRIPLES, 'hours')
    order = ctx.pick(list(itertools.permutations(range(3))), 'order')
    n = ctx.pick([1, 2, 3, 4], 'days')
    start = ctx.pick(['2016-02-28', '2015-12-30'], 'start')
    run(ctx, list(hrs), n, order=order, start=start)


def scen_missing(ctx):
    hrs = ctx.pick(TRIPLES[:3], 'hours')
    missing = {(d, k) for d in range(3) for k in range(3) if ctx.choose(2, 'missing')}
    if len(missing) == 9:
        return
    run(ctx, list(hrs), 3, missing)


VALUES = [0.0, 1.23456789, -999.0, -3.14159265, 1e-7, 5e4]


def scen_values(ctx):
    """Every value is an observation: zeros, negative, equal, very small and large ones."""
    v = [ctx.pick(VALUES, 'observation') for _ in range(4)]
    hrs = ctx.pick([(7, 14), (0, 23)], 'hours')
    run(ctx, list(hrs), 2, value=lambda k, d: v[2 * d + k])


def scen_limits(ctx):
    hrs = ctx.pick([(7,), (7, 14), (12, 18, 0)], 'hours')
    limit = ctx.pick([1, 5, 24, 30, 60, None], 'limit')
    direction = ctx.pick(['both', 'forward', 'backward'], 'direction')
    gone = ctx.pick([(), (0,), (3,), (1, 2), (0, 1), (2, 3)], 'missing days')
    miss = {(d, k) for d in gone for k in range(len(hrs))}
    run(ctx, list(hrs), 4, miss, limit=limit, limit_direction=direction)


def scen_absent(ctx):
    absent = [d for d in (1, 2, 3) if ctx.choose(2, 'absent')]
    hrs = ctx.pick(TRIPLES[:3] + [(5,)], 'hours')
    run(ctx, list(hrs), 5, absent=absent)


def scen_many(ctx):
    n = ctx.pick([1, 3], 'days')
    step = ctx.pick([1, 2, 3, 6, 8, 12, 24], 'every')
    run(ctx, list(range(0, 24, step)), n)


def scen_methods(ctx):
    """Other methods pass through the observations, too."""
    method = ctx.pick(['cubic', 'quadratic', 'nearest', 'slinear', 'time', 'pchip', 'akima'], 'method')
    hrs = ctx.pick(TRIPLES[:3], 'hours')
    idx = days('2016-02-28', 3)
    df = pd.DataFrame({'T%d' % h: [value(k, d) for d in range(3)] for k, h in enumerate(hrs)}, index=idx)
    got = melodist.Station(data_daily=df).interpolate({'T%d' % h: h for h in hrs}, method=method)
    expect_index(ctx, got.index, hours_of(idx), 'hours')
    for k, h in enumerate(hrs):
        for d in range(3):
            ctx.check(abs(got.iloc[24 * d + h] - value(k, d)) < 1e-9, '%s misses the observation', method)
    inner = got.iloc[min(hrs):48 + max(hrs) + 1]
    ctx.check(not inner.isnull().any(), '%s leaves gaps between observations', method)
    ctx.observe(got)


def scenarios(tier):
    return [('pairs', scen_pairs), ('orders', scen_orders), ('missing', scen_missing), ('values', scen_values),
            ('limits', scen_limits),
            ('absent', scen_absent), ('many', scen_many), ('methods', scen_methods)]
