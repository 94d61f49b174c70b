"""C07: sine temperature between the extremes of the adjacent days."""
import itertools

import numpy as np
import pandas as pd

from .. import ref_temp
from ..common import NAN, days, debruijn, expect, expect_index, hours_of, scattered
from ..repo import melodist

RULE = ('choice = day contexts (all triples of days by de Bruijn sequence, all short series), times of '
        'sunrise and noon, monthly shifts, options; every hour compared with the reference')
BOUNDS = dict(
    contexts='all triples over 5 kinds of days; all series of 1..3 days (thorough 4)',
    hours='sunrise in 8 (two of them before midnight) x noon in 5 values per day, monthly shift in 6 values; all pairs of consecutive days',
    options='sine/sine_min_max, fix/sun_loc/sun_loc_shift, night-time modification on/off',
)
ASSUMPTIONS = ['daylight of at least three hours (polar nights: C09)',
               'the rounded hour of the minimum does not follow the hour of the maximum (a sunrise before '
               'midnight counts as hour 0)',
               'sunrise and noon are not exactly half past an hour']

KINDS = [(273.15, 283.37, 278.21), (270.0, 271.5, 270.5), (280.06, 295.93, 290.0), (284.3, 284.3, 284.3),
         (233.0, 318.0, 279.5)]
SUNRISE = [6.4, 4.7, 8.9, 0.2, 9.6]
NOON = [12.3, 11.6, 13.2, 10.7]
STARTS = ['2016-02-27', '2015-12-30', '2016-05-29']


def frame(index, kinds):
    return pd.DataFrame([dict(temp=k[2], tmin=k[0], tmax=k[1]) for k in kinds], index=index)


def sun(index, sunrise, noon, length=8.0):
    n = len(index)
    return pd.DataFrame(dict(sunrise=np.resize(sunrise, n), sunnoon=np.resize(noon, n),
                             sunset=np.resize(noon, n) + 4.0, daylength=np.resize(length, n)),
                        index=index)


def check(ctx, index, kinds, st, how, mod, delta=None, method='sine_min_max'):
    df = frame(index, kinds)
    out = melodist.disaggregate_temperature(df, method=method, min_max_time=how, mod_nighttime=mod,
                                            max_delta=delta, sun_times=st)
    locs = [ref_temp.fit_hours(how, r, m, None if delta is None else delta[d.month])
            for d, r, m in zip(index, st.sunrise, st.sunnoon)]
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    expect(ctx, out, ref_temp.sine(kinds, locs, 'sine_min_max', mod), 'temperature', index=out.index)
    # the promises of the property text, directly
    v = np.asarray(out).reshape(-1, 24)
    for d, (lo, hi) in enumerate(locs):
        tmin, tmax, _ = kinds[d]
        ctx.check(abs(v[d, hi] - tmax) < 1e-9, 'day %s: maximum %s, got %s at %s h', index[d], tmax,
                  v[d, hi], hi)
        if mod and lo != hi:
            ctx.check(abs(v[d, lo] - tmin) < 1e-9, 'day %s: minimum %s, got %s at %s h', index[d],
                      tmin, v[d, lo], lo)
    ctx.observe(out)


def delta_series(x):
    return pd.Series({m: x[m % len(x)] for m in range(1, 13)})


def scen_contexts(ctx):
    method = ctx.pick(['sine_min_max', 'sine'], 'method')
    mod = bool(ctx.choose(2, 'night-time modification'))
    how = ctx.pick(['fix', 'sun_loc', 'sun_loc_shift'], 'time of extremes')
    start = ctx.pick(STARTS, 'start')
    rot = ctx.choose(5, 'relabelling')
    kinds = [KINDS[(i + rot) % 5] for i in debruijn(5, 3)]
    index = days(start, len(kinds))
    st = sun(index, SUNRISE[rot:] + SUNRISE[:rot], NOON)
    check(ctx, index, kinds, st, how, mod, delta_series([1.3, 2.8, 4.1, 2.2, 0.6]), method)


def scen_short(ctx):
    n = ctx.pick([1, 2, 3] + ([4] if ctx.tier == 'thorough' else []), 'days')
    kinds = [ctx.pick(KINDS, 'day') for _ in range(n)]
    index = days(STARTS[n % 3], n)
    for mod in (False, True):
        for how in ('fix', 'sun_loc', 'sun_loc_shift'):
            check(ctx, index, kinds, sun(index, SUNRISE[:3], NOON[1:]), how, mod,
                  delta_series([1.3, 2.8]))


def scen_hours(ctx):
    """All combinations of hours of two consecutive days."""
    how = ctx.pick(['sun_loc', 'sun_loc_shift'], 'time of extremes')
    mod = bool(ctx.choose(2, 'night-time modification'))
    hours = list(itertools.product(SUNRISE + [12.8, 23.8, 22.9], NOON + [14.9]))
    a = ctx.pick(hours, 'first day')
    d1 = ctx.pick([2.1, -1.2, 4.8, 0.4, -5.9, 7.7] if how == 'sun_loc_shift' else [2.0], 'shift 1')
    for b in (hours if ctx.tier == 'thorough' or how == 'sun_loc' else hours[::4]):
        for d2 in ([3.3, -1.8, -7.0] if how == 'sun_loc_shift' else [2.0]):
            index = days('2016-03-31', 2)
            delta = pd.Series({m: 9.0 for m in range(1, 13)})
            delta[3], delta[4] = d1, d2
            st = sun(index, [a[0], b[0]], [a[1], b[1]])
            locs = [ref_temp.fit_hours(how, r, m, delta[x.month])
                    for x, r, m in zip(index, st.sunrise, st.sunnoon)]
            if any(lo > hi or hi > 23 for lo, hi in locs):
                continue
            check(ctx, index, [KINDS[0], KINDS[4]], st, how, mod, delta)
            ctx.cover(hour_pairs=1)


def scen_months(ctx):
    """The shift of each month is used for the days of this month only."""
    start = ctx.choose(12, 'month') + 1
    mod = bool(ctx.choose(2, 'night-time modification'))
    delta = pd.Series({m: 0.35 * m for m in range(1, 13)})
    order = ctx.pick(['ascending', 'descending', 'subset'], 'order of shifts')
    index = days('2015-%02d-26' % start, 12)
    if order == 'descending':
        delta = delta[::-1]
    elif order == 'subset':
        delta = delta[sorted(set(index.month))]
    kinds = [KINDS[i % 5] for i in range(12)]
    check(ctx, index, kinds, sun(index, [6.3, 7.2], [12.1]), 'sun_loc_shift', mod, delta)


def scen_absent(ctx):
    """Days adjacent to an absent day do not use the days beyond it."""
    keep = [True] + [not ctx.choose(2, 'absent') for _ in range(5)] + [True]
    how = ctx.pick(['fix', 'sun_loc'], 'time of extremes')
    mod = bool(ctx.choose(2, 'night-time modification'))
    method = ctx.pick(['sine_min_max', 'sine_mean'], 'method')
    index = days('2016-02-26', 7)
    kinds = [KINDS[i % 5] if k else (NAN, NAN, NAN) for i, k in enumerate(keep)]
    st = sun(index, SUNRISE, NOON)
    out = melodist.disaggregate_temperature(frame(index, kinds)[keep], method=method, min_max_time=how,
                                            mod_nighttime=mod, sun_times=st[keep])
    locs = [ref_temp.fit_hours(how, r, m, None) for r, m in zip(st.sunrise, st.sunnoon)]
    want = np.array(ref_temp.sine(kinds, locs, method, mod)).reshape(-1, 24)[keep]
    expect_index(ctx, out.index, hours_of(index[keep]), 'hourly index')
    expect(ctx, out, want.ravel(), 'temperature', index=out.index)
    ctx.observe(out)


def scen_years(ctx):
    """Equal calendar days of several years."""
    index = scattered()
    mod = bool(ctx.choose(2, 'night-time modification'))
    rot = ctx.choose(5, 'relabelling')
    method = ctx.pick(['sine_min_max', 'sine_mean'], 'method')
    kinds = [KINDS[(i + rot) % 5] for i in range(len(index))]
    st = sun(index, SUNRISE, NOON)
    delta = delta_series([1.3, 2.8, 4.1, 2.2, 0.6])
    out = melodist.disaggregate_temperature(frame(index, kinds), method=method, mod_nighttime=mod,
                                            min_max_time='sun_loc_shift', max_delta=delta, sun_times=st)
    want = []
    for i, d in enumerate(index):
        def at(j):
            # the neighbour by date; the ends of the series use their own values
            if not 0 <= j < len(index):
                return kinds[i]
            return kinds[j] if abs((index[j] - d).days) == 1 else (NAN, NAN, NAN)

        loc = ref_temp.fit_hours('sun_loc_shift', st.sunrise.iloc[i], st.sunnoon.iloc[i], delta[d.month])
        want += ref_temp.sine([at(i - 1), kinds[i], at(i + 1)], [loc] * 3, method, mod)[24:48]
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    expect(ctx, out, want, 'temperature', index=out.index)
    ctx.observe(out)


def scen_station(ctx):
    """Through the station, with its own sun times."""
    lon, lat, tz = ctx.pick([(8.86, 51.0, 1), (-105.3, 40.1, -7), (175.0, -37.0, 12), (30.5, 0.1, 2),
                             (18.9, 69.6, 1), (30.0, 69.7, 2), (-172.0, -13.8, 13)],
                            'place')
    how = ctx.pick(['fix', 'sun_loc', 'sun_loc_shift'], 'time of extremes')
    mod = bool(ctx.choose(2, 'night-time modification'))
    method = ctx.pick([None, 'sine_min_max', 'sine'], 'method')
    start = ctx.pick(['2015-12-20', '2016-06-10', '2016-09-20'], 'start')
    kinds = [KINDS[i] for i in debruijn(5, 2)]
    index = days(start, len(kinds))
    st = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=frame(index, kinds))
    delta = delta_series([1.3, 2.8, 3.6])
    st.statistics.temp.max_delta = delta
    kw = dict(method=method) if method else {}
    st.disaggregate_temperature(min_max_time=how, mod_nighttime=mod, **kw)
    sunt = melodist.util.get_sun_times(index, lon, lat, tz)
    if (sunt.daylength < 3).any():
        return
    locs = [ref_temp.fit_hours(how, r, m, delta[d.month])
            for d, r, m in zip(index, sunt.sunrise, sunt.sunnoon)]
    expect(ctx, st.data_disagg.temp, ref_temp.sine(kinds, locs, 'sine_min_max', mod), 'temperature',
           index=st.data_disagg.index)
    ctx.observe(st.data_disagg.temp)


def scenarios(tier):
    return [('contexts', scen_contexts), ('short', scen_short), ('hours', scen_hours),
            ('months', scen_months), ('absent-days', scen_absent), ('years', scen_years), ('station', scen_station)]
