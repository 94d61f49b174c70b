"""C11: models of the humidity methods."""
import itertools

import numpy as np
import pandas as pd

from .. import hum, ref_hum
from ..common import NAN, debruijn
from ..repo import melodist
from .c10 import compare

RULE = ('choice = method and its parameters, day contexts, temperature course, month; every hour is '
        'compared with the reference formula')
BOUNDS = dict(
    contexts='all triples over 4 kinds of days, all series of 1..2 days over 5 kinds',
    parameters='2 sine periods, 6 regressions; every start month for the categorical method',
    categories='all wet/dry/missing patterns of 4 days across a month end',
)
ASSUMPTIONS = ['the categorical table contains the categories that are needed']

REG = [(0.0, 1.0), (30.0, 0.9), (-40.0, 1.1), (5.0, 0.97), (-2.5, 1.0), (281.5, 0.0)]


def scen_dewpoint(ctx):
    method = ctx.pick(['minimal', 'dewpoint_regression', 'linear_dewpoint_variation'], 'method')
    kw = {}
    if method != 'minimal':
        kw['a0'], kw['a1'] = ctx.pick(REG, 'regression')
    if method == 'linear_dewpoint_variation':
        kw['kr'] = ctx.pick([6, 12], 'kr')
    course = ctx.pick(list(hum.COURSES), 'course')
    rot = ctx.choose(4, 'relabelling')
    start = ctx.pick(['2016-01-29', '2015-11-30'], 'start')
    kinds = [(i + rot) % 4 for i in debruijn(4, 3)]
    compare(ctx, *hum.build(kinds, start, course), method, False, 'direct', **kw)


def scen_short(ctx):
    n = ctx.pick([1, 2], 'days')
    kinds = [ctx.choose(5, 'day') for _ in range(n)]
    for method, kw in (('minimal', {}), ('dewpoint_regression', dict(a0=3.0, a1=0.98)),
                       ('linear_dewpoint_variation', dict(a0=3.0, a1=0.98, kr=12)),
                       ('linear_dewpoint_variation', dict(a0=0.0, a1=1.0, kr=6)),
                       ('min_max', {})):
        for how in ('direct', 'station'):
            compare(ctx, *hum.build(kinds, '2016-02-29', 'cosine'), method, False, how, **kw)


def scen_missing(ctx):
    """Days without minimum temperature: also the day before has no dew point to vary towards."""
    method, kw = ctx.pick([('minimal', {}), ('dewpoint_regression', dict(a0=3.0, a1=0.98)),
                           ('linear_dewpoint_variation', dict(a0=3.0, a1=0.98, kr=12)),
                           ('min_max', {})], 'method')
    recs, df, temp = hum.build([0, 1, 3, 0], '2016-02-27', 'cosine')
    for i, r in enumerate(recs):
        if ctx.choose(2, 'missing'):
            r['tmin'] = NAN
    df['tmin'] = [r['tmin'] for r in recs]
    compare(ctx, recs, df, temp, method, bool(ctx.choose(2, 'preserve')), 'direct', **kw)


def scen_minmax(ctx):
    """Humidity extremes and temperature extremes of all pairs of days."""
    course = ctx.pick(list(hum.COURSES), 'course')
    hmin = ctx.pick([0.0, 20.0, 60.0], 'minimum humidity')
    hmax = ctx.pick([100.0, 80.0, 60.0], 'maximum humidity')
    kinds = debruijn(5, 2)
    recs, df, temp = hum.build(kinds, '2016-02-20', course)
    for i, r in enumerate(recs):
        if i % 2:
            r['hum_min'], r['hum_max'] = hmin, hmax
    df['hum_min'] = [r['hum_min'] for r in recs]
    df['hum_max'] = [r['hum_max'] for r in recs]
    compare(ctx, recs, df, temp, 'min_max', False, 'direct')


def scen_category(ctx):
    month = ctx.choose(12, 'month') + 1
    how = ctx.pick(['direct', 'station'], 'entry point')
    last = pd.Timestamp(2016, month, 1) + pd.offsets.MonthEnd(0)
    wet = [0.004, 25.0, 1e-7, 0.0005]
    for kinds in itertools.product(['dry', 'wet', 'missing'], repeat=4):
        pattern = [dict(dry=0.0, wet=w, missing=NAN)[k] for k, w in zip(kinds, wet)]
        recs, df, temp = hum.build([0, 1, 2, 3], last - pd.Timedelta(days=1), 'cosine')
        for r, p in zip(recs, pattern):
            r['precip'] = p
        df['precip'] = pattern
        months = {month, month % 12 + 1}
        compare(ctx, recs, df, temp, 'month_hour_precip_mean', False, how,
                table=hum.table(sorted(months)))


def scen_freezing(ctx):
    """Temperatures and dew points around the freezing point."""
    lo = ctx.pick([273.14, 273.15, 273.16, 272.0], 'minimum')
    hi = ctx.pick([273.2, 274.0, 280.0], 'maximum')
    method = ctx.pick(['minimal', 'linear_dewpoint_variation'], 'method')
    kw = dict(a0=0.0, a1=1.0, kr=ctx.pick([6, 12], 'kr')) if method != 'minimal' else {}
    recs, df, temp = hum.build([0, 1, 2], '2016-01-30', 'cosine')
    c = hum.COURSES['ramp']
    t = []
    for i, r in enumerate(recs):
        r['tmin'], r['tmax'] = lo + (0.05 * i), hi + 0.1 * i
        t += list(r['tmin'] + c * (r['tmax'] - r['tmin']))
    df['tmin'] = [r['tmin'] for r in recs]
    df['tmax'] = [r['tmax'] for r in recs]
    compare(ctx, recs, df, pd.Series(t, index=temp.index), method, False, 'direct', **kw)


def scenarios(tier):
    return [('dew-point', scen_dewpoint), ('short', scen_short), ('missing', scen_missing),
            ('min-max', scen_minmax),
            ('categories', scen_category), ('freezing', scen_freezing)]
