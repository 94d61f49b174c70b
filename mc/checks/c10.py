"""C10: range of humidity and preservation of the daily mean."""
import numpy as np
import pandas as pd

from .. import hum, ref_hum
from ..common import NAN, debruijn, expect, expect_index
from ..repo import melodist

RULE = ('choice = method, day contexts, temperature course, observed mean of every day, calendar '
        'position, entry point; range, mean and every hourly value compared with the reference')
BOUNDS = dict(
    days='all pairs of 5 kinds of days (de Bruijn); all 3-day series over 6 observed means incl. missing, 0 and 100',
    methods='6 methods with and without mean preservation, 3 temperature courses, extreme dew points',
)
ASSUMPTIONS = ['daily maximum above daily minimum temperature for the min/max method']


def call(df, temp, method, preserve, how, **kw):
    args = dict(a0=kw.get('a0'), a1=kw.get('a1'), kr=kw.get('kr'),
                month_hour_precip_mean=kw.get('table'))
    if how == 'direct':
        return melodist.disaggregate_humidity(df, method=method, temp=temp,
                                              preserve_daily_mean=preserve, **args)
    st = melodist.Station(data_daily=df)
    st.data_disagg['temp'] = temp
    st.statistics.hum.update(args)
    st.disaggregate_humidity(method=method, preserve_daily_mean=preserve)
    return st.data_disagg.hum


def compare(ctx, recs, df, temp, method, preserve, how, **kw):
    out = call(df, temp, method, preserve, how, **kw)
    expect_index(ctx, out.index, temp.index, 'hourly index')
    raw = ref_hum.raw(method, recs, list(temp), **kw)
    want = ref_hum.finish(raw, recs, preserve)
    v = np.asarray(out, dtype=float)
    bad = (v < 0) | (v > 100)
    ctx.check(not bad.any(), '%s: humidity out of range: %s', method, v[bad][:3])
    expect(ctx, v, want, '%s, preserve daily mean: %s' % (method, preserve), index=out.index,
           rtol=1e-8, atol=1e-8)
    if preserve:
        for d, r in enumerate(recs):
            x = v[24 * d:24 * d + 24]
            inside = ((x > 0) & (x < 100)).all()
            if r['hum'] == r['hum'] and inside:
                ctx.check(abs(x.mean() - r['hum']) < 1e-7, '%s: daily mean %s, observed %s', method,
                          x.mean(), r['hum'])
                ctx.cover(days_with_preserved_mean=1)
            elif r['hum'] == r['hum']:
                ctx.cover(days_limited=1)
    ctx.observe(out)


def params(ctx, method):
    kw = {}
    if method in ('dewpoint_regression', 'linear_dewpoint_variation'):
        kw['a0'], kw['a1'] = ctx.pick([(0.0, 1.0), (30.0, 0.9), (-40.0, 1.1), (12.0, 0.99)],
                                      'regression')
    if method == 'linear_dewpoint_variation':
        kw['kr'] = ctx.pick([6, 12], 'kr')
    if method == 'month_hour_precip_mean':
        kw['table'] = hum.table()
    return kw


def scen_methods(ctx):
    method = ctx.pick(hum.METHODS, 'method')
    preserve = bool(ctx.choose(2, 'preserve'))
    course = ctx.pick(list(hum.COURSES), 'course')
    start = ctx.pick(['2016-02-20', '2015-12-20', '2016-06-25'], 'start')
    how = ctx.pick(['direct', 'station'], 'entry point')
    rot = ctx.choose(5, 'relabelling') if ctx.tier == 'thorough' else 0
    kw = params(ctx, method)
    kinds = [(i + rot) % 5 for i in debruijn(5, 2)]
    compare(ctx, *hum.build(kinds, start, course), method, preserve, how, **kw)


def scen_means(ctx):
    """Every combination of observed means; the correction is per day."""
    method = ctx.pick(['minimal', 'min_max', 'month_hour_precip_mean', 'linear_dewpoint_variation'],
                      'method')
    means = [ctx.pick([60.0, 5.0, 99.0, NAN, 0.0, 100.0], 'observed mean') for _ in range(3)]
    start = ctx.pick(['2016-02-28', '2015-12-31', '2016-01-30'], 'start')
    kinds = [0, 1, 3]
    recs, df, temp = hum.build(kinds, start, 'cosine')
    for r, m in zip(recs, means):
        r['hum'] = m
    df['hum'] = means
    kw = {}
    if method == 'linear_dewpoint_variation':
        kw = dict(a0=3.0, a1=0.98, kr=12)
    if method == 'month_hour_precip_mean':
        kw['table'] = hum.table()
    compare(ctx, recs, df, temp, method, True, 'direct', **kw)


def scen_same_day_of_month(ctx):
    """Days of a long series with the same day of the month have their own correction."""
    i = ctx.choose(70, 'day without observed mean')
    method = ctx.pick(['minimal', 'min_max'], 'method')
    kinds = [(k * 3 + k // 7) % 4 for k in range(70)]
    recs, df, temp = hum.build(kinds, '2016-01-15', 'cosine')
    df = df.copy()
    for k in range(70):
        recs[k]['hum'] = 30.0 + k * 0.7
    recs[i]['hum'] = NAN
    df['hum'] = [r['hum'] for r in recs]
    compare(ctx, recs, df, temp, method, True, 'direct')


def scen_beyond(ctx):
    """Hourly temperatures outside the daily range, by any amount on either side."""
    lo = ctx.pick([0.0, -0.7, -3.0, 0.4], 'lowest temperature in the range')
    hi = ctx.pick([1.0, 1.4, 4.0, 0.6], 'highest temperature in the range')
    preserve = bool(ctx.choose(2, 'preserve'))
    how = ctx.pick(['direct', 'station'], 'entry point')
    for method in ('min_max', 'minimal'):
        for kinds in ([0], [3], [3, 0], [2, 3, 1]):
            recs, df, temp = hum.build(kinds, '2016-02-28', 'ramp')
            pos = lo + (hi - lo) * np.arange(24) / 23.0
            temp = pd.Series(np.concatenate([r['tmin'] + pos * (r['tmax'] - r['tmin']) for r in recs]),
                             index=temp.index)
            compare(ctx, recs, df, temp, method, preserve, how)


def scen_close(ctx):
    """Observed means very close to the uncorrected ones."""
    method = ctx.pick(['minimal', 'min_max', 'month_hour_precip_mean', 'linear_dewpoint_variation'], 'method')
    how = ctx.pick(['direct', 'station'], 'entry point')
    off = [ctx.pick([0.0, 1e-4, -1e-4, 0.004, 0.04, -0.3, 0.9, -4.0], 'correction') for _ in range(2)]
    kw = {}
    if method == 'linear_dewpoint_variation':
        kw = dict(a0=3.0, a1=0.98, kr=12)
    if method == 'month_hour_precip_mean':
        kw['table'] = hum.table()
    recs, df, temp = hum.build([0, 1], '2016-02-28', 'cosine')
    raw = np.array(ref_hum.raw(method, recs, list(temp), **kw)).reshape(-1, 24).mean(axis=1)
    df = df.copy()
    for r, m, d in zip(recs, raw, off):
        r['hum'] = min(max(m + d, 0.0), 100.0)
    df['hum'] = [r['hum'] for r in recs]
    compare(ctx, recs, df, temp, method, True, how, **kw)


def scen_invalid(ctx):
    """Observed daily means beyond the range of humidity."""
    method = ctx.pick(['equal', 'minimal', 'min_max'], 'method')
    preserve = bool(ctx.choose(2, 'preserve'))
    how = ctx.pick(['direct', 'station'], 'entry point')
    means = [ctx.pick([60.0, -0.4, 103.5, NAN], 'observed mean') for _ in range(3)]
    recs, df, temp = hum.build([0, 1, 3], '2016-02-28', 'cosine')
    for r, m in zip(recs, means):
        r['hum'] = m
    df['hum'] = means
    compare(ctx, recs, df, temp, method, preserve, how)


def scen_missing_temp(ctx):
    """Missing hourly temperatures: the bias uses the remaining hours."""
    hours_missing = ctx.pick([(0,), (23,), tuple(range(24)), (5, 6, 7), (24, 25)], 'missing hours')
    method = ctx.pick(['minimal', 'min_max', 'dewpoint_regression'], 'method')
    recs, df, temp = hum.build([0, 1, 3], '2016-02-28', 'cosine')
    temp = temp.copy()
    temp.iloc[list(hours_missing)] = np.nan
    kw = dict(a0=3.0, a1=0.98) if method == 'dewpoint_regression' else {}
    compare(ctx, recs, df, temp, method, True, 'direct', **kw)


def scenarios(tier):
    return [('methods', scen_methods), ('observed-means', scen_means),
            ('long-series', scen_same_day_of_month), ('beyond', scen_beyond), ('invalid-means', scen_invalid), ('close-means', scen_close),
            ('missing-temperature', scen_missing_temp)]
