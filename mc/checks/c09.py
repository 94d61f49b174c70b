"""C09: temperature during polar nights."""
import numpy as np
import pandas as pd

from .. import ref_temp
from ..common import days, expect_index, hours_of, first_diff
from ..repo import melodist
from .c07 import delta_series, frame, sun

RULE = ('choice = polar/normal pattern of all days, temperature tendency of each day, options; every hour '
        'compared with the reference')
BOUNDS = dict(
    patterns='all 2^6 (thorough 2^8) polar/normal patterns x 3 tendencies sequences; all 4 tendencies^4 for 4 patterns',
    options='sine_min_max and sine_mean, fix/sun_loc/sun_loc_shift, night-time modification',
    daylight='0, 2.9, 3 (not polar), 8 hours',
)
ASSUMPTIONS = ['no missing temperatures in and next to polar nights',
               'hours before the first defined point at the very start of the series are not compared']

# mean temperatures of successive days
STEPS = {'up': 3.0, 'down': -4.0, 'same': 0.0, 'little': -0.03125, 'fall': -31.0}


def kinds_of(steps, first=250.0 + 5 / 4096):
    out = []
    m = first
    for i, s in enumerate(steps):
        m += STEPS[s]
        r = (4.0 + 3 / 2048, 7.0 + 1 / 1024, 2.0)[i % 3]
        out.append((m - r, m + r, m + 0.5))
    return out


def compare(ctx, index, kinds, pattern, how, mod, method, length=(2.0, 8.0), clock=0.0):
    n = len(kinds)
    st = sun(index, [x + clock for x in (9.7, 8.8, 10.3)], [x + clock for x in (12.2, 11.8)],
             [length[0] if p else length[1] for p in pattern])
    delta = delta_series([1.3, 2.8])
    out = melodist.disaggregate_temperature(frame(index, kinds), method=method, min_max_time=how,
                                            mod_nighttime=mod, max_delta=delta, sun_times=st)
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    locs = [ref_temp.fit_hours(how, r, m, delta[d.month])
            for d, r, m in zip(index, st.sunrise, st.sunnoon)]
    want = ref_temp.polar(kinds, locs, pattern, method, mod)
    got = np.asarray(out, dtype=float)
    ctx.check(len(got) == 24 * n, 'length %s', len(got))
    defined = np.array([x is not None for x in want])
    ctx.work += int(defined.sum())
    d = first_diff(got[defined], [x for x in want if x is not None], out.index[defined])
    if d:
        ctx.fail('temperature: ' + d)
    ctx.observe(out)


TENDENCIES = [('up', 'down', 'same'), ('down', 'down', 'up', 'up'), ('up', 'up', 'down', 'same', 'down')]


def scen_patterns(ctx):
    n = 8 if ctx.tier == 'thorough' else 6
    pattern = [bool(ctx.choose(2, 'polar')) for _ in range(n)]
    t = ctx.pick(TENDENCIES, 'tendency')
    kinds = kinds_of([t[i % len(t)] for i in range(n)])
    start = '2015-12-28'
    index = days(start, n)
    for how in ('fix', 'sun_loc', 'sun_loc_shift'):
        for method, mod in (('sine_min_max', False), ('sine_min_max', True), ('sine_mean', False)):
            compare(ctx, index, kinds, pattern, how, mod, method)


def scen_tendency(ctx):
    pattern = ctx.pick([(1, 1, 1, 1), (0, 1, 1, 0), (1, 0, 1, 1), (0, 0, 1, 0)], 'polar')
    steps = [ctx.pick(list(STEPS), 'tendency') for _ in range(4)]
    compare(ctx, days('2016-02-27', 4), kinds_of(steps), [bool(p) for p in pattern], 'sun_loc', False,
            'sine')


def scen_clock(ctx):
    """Solar noon several hours before or after 12 o'clock."""
    clock = ctx.pick([-4.0, -2.0, 2.0, 4.0, 6.0], 'clock')
    pattern = [bool(ctx.choose(2, 'polar')) for _ in range(4)]
    how = ctx.pick(['sun_loc', 'sun_loc_shift'], 'time of extremes')
    compare(ctx, days('2016-02-27', 4), kinds_of(TENDENCIES[1]), pattern, how, False, 'sine_min_max', clock=clock)


def scen_daylength(ctx):
    a = ctx.pick([0.0, 2.9, 2.999], 'daylight of polar days')
    b = ctx.pick([3.0, 3.1, 24.0], 'daylight of normal days')
    pattern = ctx.pick([(0, 1, 1, 0, 0), (1, 1, 0, 0, 1), (0, 0, 0, 0, 0), (1, 1, 1, 1, 1)], 'polar')
    compare(ctx, days('2015-12-30', 5), kinds_of(TENDENCIES[2]), [bool(p) for p in pattern], 'fix',
            False, 'sine_min_max', (a, b))


def scen_station(ctx):
    lat, lon, tz = ctx.pick([(70.0, 25.0, 1), (78.2, 15.6, 1), (67.5, 26.0, 2), (-75.0, 123.0, 8)],
                            'place')
    start = ctx.pick(['2015-11-10', '2015-12-20', '2016-01-05', '2016-05-01', '2016-07-20'], 'start')
    how = ctx.pick(['fix', 'sun_loc', 'sun_loc_shift'], 'time of extremes')
    n = 40
    t = TENDENCIES[2]
    kinds = kinds_of([t[i % 5] for i in range(n)])
    index = days(start, n)
    st = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=frame(index, kinds))
    delta = delta_series([1.3, 2.8])
    st.statistics.temp.max_delta = delta
    sunt = melodist.util.get_sun_times(index, lon, lat, tz)
    pattern = [bool(x < 3) for x in sunt.daylength]
    locs = [ref_temp.fit_hours(how, r, m, delta[d.month])
            for d, r, m in zip(index, sunt.sunrise, sunt.sunnoon)]
    if any(lo >= hi or hi > 23 for (lo, hi), p in zip(locs, pattern) if not p):
        return
    st.disaggregate_temperature(min_max_time=how)
    want = ref_temp.polar(kinds, locs, pattern)
    got = np.asarray(st.data_disagg.temp, dtype=float)
    defined = np.array([x is not None for x in want])
    d = first_diff(got[defined], [x for x in want if x is not None], st.data_disagg.index[defined])
    ctx.work += int(defined.sum())
    ctx.cover(polar_days=sum(pattern))
    if d:
        ctx.fail('temperature: ' + d)
    ctx.observe(st.data_disagg.temp)


def scenarios(tier):
    return [('patterns', scen_patterns), ('tendencies', scen_tendency), ('clock', scen_clock),
            ('daylength', scen_daylength),
            ('station', scen_station)]
