"""C08: mean preserving and mean course temperature."""
import itertools

import numpy as np
import pandas as pd

from .. import ref_temp
from ..common import NAN, days, debruijn, expect, expect_index, hours_of
from ..repo import melodist
from .c07 import KINDS, NOON, SUNRISE, delta_series, frame, sun

RULE = ('choice = day contexts, hour of maximum, monthly courses, start month, missing values; every hour '
        'is compared with the reference and every daily mean with the input')
BOUNDS = dict(
    contexts='all pairs over 5 kinds of days plus missing ones, all series of 1..3 days',
    courses='4 sets of twelve different courses (one beyond 0 .. 1), full and partial month coverage, every start month',
    odd='all 3-day series over 6 kinds of days with means beyond the extremes, no or inverted range; courses with '
        'missing hours or of a single month',
    hours='rounded noon in 4 values, shifts in 5 values',
)
ASSUMPTIONS = ['the mean course has a row for all 24 hours and a column for the months needed']


def courses(kind, months=range(1, 13)):
    h = np.arange(24.0)
    cols = {}
    for m in months:
        if kind == 'bell':
            c = np.exp(-((h - 8 - m) / 5.0) ** 2)
        elif kind in ('saw', 'wide'):
            c = ((h * (2 * m - 1)) % 24) / 7.0
        else:
            c = np.where(h == m, 1.0, 0.0) + 0.1 * (h == 2 * m - 1) - 0.05 * (h == 0)
        cols[m] = (c - c.min()) / (c.max() - c.min())
        if kind == 'wide':
            cols[m] = 2.5 * cols[m] - 0.8
    return pd.DataFrame(cols, index=range(24))


def check_course(ctx, index, kinds, course, out):
    expect_index(ctx, out['mm'].index, hours_of(index), 'hourly index')
    want_mm, want_mean = [], []
    for d, (tmin, tmax, tmean) in zip(index, kinds):
        c = course[d.month].to_numpy()
        want_mm += list(tmin + c * (tmax - tmin))
        want_mean += list(tmean + (c - c.mean()) * (tmax - tmin))
    expect(ctx, out['mm'], want_mm, 'course between minimum and maximum', index=out['mm'].index)
    expect(ctx, out['mean'], want_mean, 'course around the mean', index=out['mean'].index)
    v = np.asarray(out['mean']).reshape(-1, 24)
    expect(ctx, v.mean(axis=1), [k[2] + 0 * k[0] + 0 * k[1] for k in kinds], 'daily means')
    w = np.asarray(out['mm']).reshape(-1, 24)
    if course.min().min() < 0:
        return
    expect(ctx, w.min(axis=1), [k[0] if k[0] <= k[1] else NAN for k in kinds], 'daily minima')
    expect(ctx, w.max(axis=1), [k[1] if k[0] <= k[1] else NAN for k in kinds], 'daily maxima')
    ctx.observe(out['mm'], out['mean'])


def both(df, course):
    return dict(mm=melodist.disaggregate_temperature(df, method='mean_course_min_max',
                                                     mean_course=course),
                mean=melodist.disaggregate_temperature(df, method='mean_course_mean',
                                                       mean_course=course))


MISSING = [(NAN, NAN, NAN)]


def scen_course(ctx):
    month = ctx.choose(12, 'start month') + 1
    kind = ctx.pick(['bell', 'saw', 'peak', 'wide'], 'courses')
    index = days('2016-%02d-20' % month, 26)
    part = ctx.choose(2, 'only needed months')
    course = courses(kind, sorted(set(index.month)) if part else range(1, 13))
    kinds = [KINDS[i] for i in debruijn(5, 2)]
    check_course(ctx, index, kinds, course, both(frame(index, kinds), course))


def scen_course_short(ctx):
    n = ctx.pick([1, 2, 3], 'days')
    kinds = [ctx.pick(KINDS[:3] + MISSING, 'day') for _ in range(n)]
    index = days('2015-12-31', n)
    course = courses('bell')
    df = frame(index, kinds)
    df['other'] = 1.0
    check_course(ctx, index, kinds, course, both(df, course))
    st = melodist.Station(data_daily=df)
    st.statistics.temp.mean_course = course
    out = {}
    st.sun_times = sun(index, [6.3], [12.1])
    for k, m in (('mm', 'mean_course_min_max'), ('mean', 'mean_course_mean')):
        st.disaggregate_temperature(method=m)
        out[k] = st.data_disagg.temp.copy()
    check_course(ctx, index, kinds, course, out)


def scen_sine_mean(ctx):
    how = ctx.pick(['fix', 'sun_loc', 'sun_loc_shift'], 'time of extremes')
    mod = bool(ctx.choose(2, 'night-time modification (no effect)'))
    noon = ctx.pick(NOON, 'noon')
    shift = ctx.pick([1.3, 2.8, 4.2, 0.6, -9.0], 'shift')
    start = ctx.pick(['2016-02-20', '2015-12-20'], 'start')
    kinds = [KINDS[i] for i in debruijn(5, 2)]
    index = days(start, len(kinds))
    st = sun(index, SUNRISE[:3], [noon])
    delta = delta_series([shift, shift + 1.0, shift - 0.7])
    out = melodist.disaggregate_temperature(frame(index, kinds), method='sine_mean', min_max_time=how,
                                            mod_nighttime=mod, max_delta=delta, sun_times=st)
    locs = [ref_temp.fit_hours(how, r, m, delta[d.month])
            for d, r, m in zip(index, st.sunrise, st.sunnoon)]
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    expect(ctx, out, ref_temp.sine(kinds, locs, 'sine_mean'), 'temperature', index=out.index)
    expect(ctx, np.asarray(out).reshape(-1, 24).mean(axis=1), [k[2] for k in kinds], 'daily means')
    ctx.observe(out)


def scen_sine_short(ctx):
    n = ctx.pick([1, 2, 3, 4], 'days')
    kinds = [ctx.pick(KINDS[:3] + MISSING, 'day') for _ in range(n)]
    index = days('2015-12-30', n)
    st = sun(index, [6.3], [12.1])
    out = melodist.disaggregate_temperature(frame(index, kinds), method='sine_mean', sun_times=st)
    expect(ctx, out, ref_temp.sine(kinds, [(7, 14)] * n, 'sine_mean'), 'temperature', index=out.index)
    ctx.observe(out)


def scen_independent(ctx):
    """The values of a day depend on no other day: each method, each changed day."""
    method = ctx.pick(['sine_mean', 'mean_course_mean', 'mean_course_min_max'], 'method')
    changed = ctx.choose(6, 'changed day')
    to = ctx.pick(KINDS + MISSING, 'new values')
    index = days('2016-03-28', 6)
    kinds = [KINDS[i % 5] for i in range(6)]
    other = list(kinds)
    other[changed] = to
    out = [melodist.disaggregate_temperature(frame(index, k), method=method, mean_course=courses('saw'),
                                             sun_times=sun(index, [6.3], [12.1]))
           for k in (kinds, other)]
    mask = np.arange(6 * 24) // 24 != changed
    expect(ctx, np.asarray(out[1])[mask], np.asarray(out[0])[mask], 'other days', rtol=0, atol=1e-12)
    ctx.observe(out[1])


ODD = [(280.0, 290.0, 291.5), (280.0, 290.0, 279.25), (284.0, 284.0, 284.0), (283.0, 282.5, 282.75),
       (280.0, 280.25, 280.1), (250.0, 310.0, 281.0)]


def scen_odd(ctx):
    """Means beyond the extremes, no or inverted range; incomplete courses."""
    kinds = [ctx.pick(ODD, 'day') for _ in range(ctx.pick([3, 1], 'days'))]
    what = ctx.pick(['full', 'one month', 'missing hours'], 'course')
    index = days('2016-02-27' if what == 'one month' else '2016-02-28', len(kinds))
    course = courses('saw', [2] if what == 'one month' else range(1, 13))
    if what == 'missing hours':
        course.loc[[0, 13], 2] = NAN
        course.loc[23, 3] = NAN
    df = frame(index, kinds)
    out = both(df, course)
    mm, mean = [], []
    for d, (tmin, tmax, tmean) in zip(index, kinds):
        c = course[d.month].to_numpy()
        mm += list(tmin + c * (tmax - tmin))
        mean += list(tmean + (c - np.nanmean(c)) * (tmax - tmin))
    expect(ctx, out['mm'], mm, 'course between minimum and maximum', index=out['mm'].index)
    expect(ctx, out['mean'], mean, 'course around the mean', index=out['mean'].index)
    sine = melodist.disaggregate_temperature(df, method='sine_mean', sun_times=sun(index, [6.3], [12.1]))
    expect(ctx, sine, ref_temp.sine(kinds, [(7, 14)] * len(kinds), 'sine_mean'), 'temperature', index=sine.index)
    ctx.observe(out['mm'], out['mean'], sine)


def scenarios(tier):
    return [('course', scen_course), ('course-short', scen_course_short), ('sine-mean', scen_sine_mean),
            ('sine-mean-short', scen_sine_short), ('independent-days', scen_independent), ('odd-days', scen_odd)]
