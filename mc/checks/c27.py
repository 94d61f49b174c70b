"""C27: diurnal statistics reproduce the observations they come from."""
import math

import numpy as np
import pandas as pd

from .. import fix, ref_hum, ref_sun
from ..common import NAN, days, expect, hours_of
from ..repo import melodist

RULE = ('choice = months, missing pattern, hour of the maximum, wet days, model parameters, entry point; '
        'every statistic compared with plain averages or normal equations')
BOUNDS = dict(months='all subsets of 4 months, all single months', missing='8 patterns x every day of 4',
              maximum='all pairs of hours of the daily maximum, ties', wetness='all patterns of 5 days',
              wind='5 amplitudes x 12 phases x 3 levels')
ASSUMPTIONS = ['every month-hour category used by a regression has at least two days']

PLACE = (8.9, 51.3, 1)


def series(dates, salt=0):
    idx = hours_of(dates)
    i = np.arange(len(idx)) + 31 * salt
    h = np.asarray(idx.hour)
    d = np.arange(len(idx)) // 24
    return pd.DataFrame(dict(
        temp=279.0 + 5.0 * np.cos((h - 14 - d % 3) * np.pi / 12) + 1.5 * np.sin(i * 1.3) + 0.7 * (d % 5),
        hum=60.0 + 25.0 * np.sin(i * 0.37) + 10.0 * np.cos(h * np.pi / 12),
        precip=np.where((i % 9 == 2) & (d % 2 == 0), 0.4 + (i % 4), 0.0),
        wind=(2.0 + 0.7 * (d % 4)) * (1 + (0.2 + 0.1 * (d % 3)) * np.cos((h - 13) * np.pi / 12)) + 0.2 * np.sin(i * 2.1),
        glob=np.clip(np.sin((h - 5) / 14.0 * np.pi), 0, None) * (150 + 20.0 * (d % 4)) * ((h > 5) & (h < 19)),
    ), index=idx)


def mean(v):
    v = [x for x in v if x == x]
    return math.fsum(v) / len(v) if v else NAN


# ---- references ---------------------------------------------------------------------------
def ref_course(s):
    months = sorted(set(s.index.month))
    return months, {m: [mean(s.to_numpy()[(s.index.month == m) & (s.index.hour == h)]) for h in range(24)]
                    for m in months}


def by_day(s):
    out = {}
    for t, v in s.items():
        out.setdefault(t.normalize(), []).append((t.hour, v))
    return out


def ref_shift(s):
    acc = {}
    for d, hv in by_day(s).items():
        hv = [(h, v) for h, v in hv if v == v]
        if not hv:
            continue
        top = max(v for _, v in hv)
        hour = min(h for h, v in hv if v == top)
        noon = ref_sun.sun_times(d.timetuple().tm_yday, *PLACE)[1]
        acc.setdefault(d.month, []).append(hour - noon)
    return {m: mean(v) for m, v in acc.items()}


def ref_hum_means(df):
    wet = {d: math.fsum(v for _, v in hv if v == v) > 0 for d, hv in by_day(df.precip).items()}
    acc = {}
    for t, v in df.hum.items():
        acc.setdefault((t.month, t.hour, wet[t.normalize()]), []).append(v)
    return {k: mean(v) for k, v in acc.items()}


def ref_regression(df):
    x, y = [], []
    tmin = by_day(df.temp)
    td = by_day(pd.Series([ref_hum.dewpoint(a, b) for a, b in zip(df.temp, df.hum)], index=df.index))
    for d in tmin:
        a = [v for _, v in tmin[d] if v == v]
        b = mean([v for _, v in td[d]])
        if a and b == b:
            x.append(min(a))
            y.append(b)
    mx, my = mean(x), mean(y)
    slope = math.fsum((p - mx) * (q - my) for p, q in zip(x, y)) / math.fsum((p - mx) ** 2 for p in x)
    return slope, my - slope * mx


def ref_wind(w):
    """Least squares is linear in a cos(shift), a sin(shift) and b."""
    rows, y = [], []
    for d, hv in by_day(w).items():
        m = mean([v for _, v in hv])
        for h, v in hv:
            if v == v and m == m:
                rows.append([m * math.cos(math.pi * h / 12), m * math.sin(math.pi * h / 12), m])
                y.append(v)
    return np.linalg.lstsq(np.array(rows), np.array(y), rcond=None)[0]


def check_course(ctx, got, s, normalise, what):
    months, want = ref_course(s)
    ctx.check(list(got.columns) == months, '%s: months %s, expected %s', what, list(got.columns), months)
    ctx.check(list(got.index) == list(range(24)), '%s: hours %s', what, list(got.index))
    for m in months:
        w = np.array(want[m])
        if normalise:
            w = (w - np.nanmin(w)) / (np.nanmax(w) - np.nanmin(w))
            ctx.check(abs(np.nanmin(got[m])) < 1e-12 and abs(np.nanmax(got[m]) - 1) < 1e-12,
                      '%s: month %s is not normalised', what, m)
        expect(ctx, got[m], w, '%s of month %s' % (what, m))


def check_all(ctx, df, how):
    if how == 'statistics':
        s = melodist.StationStatistics(data=df, lon=PLACE[0], lat=PLACE[1], timezone=PLACE[2])
        s.calc_temperature_stats()
        s.calc_humidity_stats()
        s.calc_wind_stats()
        s.calc_radiation_stats()
        course, delta, glob = s.temp.mean_course, s.temp.max_delta, s.glob.mean_course
        table, slope, icpt = s.hum.month_hour_precip_mean, s.hum.a1, s.hum.a0
        wind = (s.wind.a, s.wind.b, s.wind.t_shift)
        ctx.check(s.hum.kr == 12, 'kr is %s', s.hum.kr)
    elif how == 'station':
        st = melodist.Station(lon=PLACE[0], lat=PLACE[1], timezone=PLACE[2])
        s = st.statistics
        s.data = df
        s.calc_temperature_stats()
        s.calc_humidity_stats()
        s.calc_wind_stats()
        s.calc_radiation_stats()
        course, delta, glob = s.temp.mean_course, s.temp.max_delta, s.glob.mean_course
        table, slope, icpt = s.hum.month_hour_precip_mean, s.hum.a1, s.hum.a0
        wind = (s.wind.a, s.wind.b, s.wind.t_shift)
    else:
        course = melodist.util.calculate_mean_daily_course_by_month(df.temp, normalize=True)
        glob = melodist.util.calculate_mean_daily_course_by_month(df.glob)
        delta = melodist.get_shift_by_data(df.temp, *PLACE)
        table = melodist.calculate_month_hour_precip_mean(df)
        slope, icpt = melodist.calculate_dewpoint_regression(df)
        wind = melodist.fit_cosine_function(df.wind)
    check_course(ctx, course, df.temp, True, 'temperature course')
    check_course(ctx, glob, df.glob, False, 'radiation course')
    want = ref_shift(df.temp)
    got = {int(m): float(v) for m, v in delta.items() if v == v}
    ctx.check(set(got) == set(want), 'months of the shift %s, expected %s', sorted(got), sorted(want))
    for m in want:
        ctx.check(abs(got[m] - want[m]) < 1e-6, 'shift of month %s: %s, expected %s', m, got[m], want[m])
    want = ref_hum_means(df)
    got = {(int(a), int(b), bool(c)): float(v) for (a, b, c), v in table.items()}
    ctx.check({k for k in got if got[k] == got[k]} == {k for k in want if want[k] == want[k]},
              'humidity categories differ: %s', sorted(set(got) ^ set(want))[:3])
    for k in got:
        if got[k] == got[k]:
            ctx.check(abs(got[k] - want[k]) < 1e-9, 'humidity of %s: %s, expected %s', k, got[k], want[k])
    expect(ctx, [slope, icpt], ref_regression(df), 'dew point regression', rtol=1e-6, atol=1e-6)
    a, b, sh = (float(x) for x in wind)
    expect(ctx, [a * math.cos(math.pi * sh / 12), a * math.sin(math.pi * sh / 12), b], ref_wind(df.wind),
           'wind parameters', rtol=0, atol=2e-5)
    ctx.observe(course, glob, delta, table, np.array([slope, icpt]))


HOW = ['statistics', 'direct', 'station']


def scen_months(ctx):
    """Only some months are present, several years, other months have no influence."""
    use = [m for m in (1, 2, 7, 12) if not ctx.choose(2, 'without month %d' % m)]
    if not use:
        return
    how = ctx.pick(HOW, 'entry point')
    dates = []
    for y in (2015, 2016):
        for m in use:
            dates += list(days('%d-%02d-11' % (y, m), 3))
    df = series(sorted(dates))
    check_all(ctx, df, how)
    # the values of month 7 do not depend on the presence of the others
    if 7 in use and len(use) > 1:
        a = melodist.util.calculate_mean_daily_course_by_month(df.temp)
        b = melodist.util.calculate_mean_daily_course_by_month(df.temp[df.index.month == 7])
        expect(ctx, a[7], b[7], 'course of month 7 alone')


def scen_years(ctx):
    """Years with different numbers of days and different values weigh by observations."""
    n = [ctx.pick([0, 1, 2, 5], 'days of the year') for _ in range(3)]
    month = ctx.pick([1, 2, 7], 'month')
    how = ctx.pick(HOW, 'entry point')
    if sum(n) < 3:
        return
    dates = [d for y, k in zip((2014, 2015, 2016), n) if k for d in days('%d-%02d-11' % (y, month), k)]
    df = series(dates)
    y = np.asarray(df.index.year) - 2014
    df['temp'] += 4.0 * y + np.where(df.index.hour == 9, 5.0 * y, 0.0)
    df['hum'] *= 1.0 - 0.2 * y
    df['glob'] *= 1.0 + y
    df['wind'] += y
    check_all(ctx, df, how)


PATTERNS = [lambda h: False, lambda h: True, lambda h: h == 0, lambda h: h == 23, lambda h: h % 2 == 1,
            lambda h: h < 12, lambda h: h == 14, lambda h: h not in (3, 15)]


def scen_missing(ctx):
    """Missing hours and days, in one or all variables."""
    var = ctx.pick(['temp', 'hum', 'precip', 'wind', 'all'], 'variable')
    p = PATTERNS[ctx.choose(len(PATTERNS), 'pattern')]
    day = ctx.pick([0, 1, 5, 7], 'day')
    q = PATTERNS[ctx.choose(3, 'pattern of the next day')]
    how = ctx.pick(HOW[:2], 'entry point')
    df = series(list(days('2016-01-28', 8)))
    n = np.arange(len(df))
    for d, pat in ((day, p), ((day + 1) % 8, q)):
        m = np.array([k // 24 == d and pat(k % 24) for k in n])
        if var == 'all':
            df.loc[m] = np.nan
        else:
            df.loc[m, var] = np.nan
    check_all(ctx, df, how)


def scen_absent(ctx):
    """Absent hours and days."""
    df = series(list(days('2016-01-27', 8)))
    gone = ctx.pick([(24, 48), (0, 5), (100, 101), (120, 168), (187, 192), (20, 30)], 'absent')
    how = ctx.pick(HOW[:2], 'entry point')
    check_all(ctx, df.drop(index=df.index[gone[0]:gone[1]]), how)


def scen_outlier(ctx):
    """One hour far away from all others takes part like any other."""
    var, v = ctx.pick([('temp', 250.0), ('temp', 320.0), ('hum', 100.0), ('hum', 1.0), ('wind', 45.0), ('wind', 0.0),
                       ('glob', 1300.0), ('glob', 0.0), ('precip', 200.0)], 'value')
    day = ctx.pick([0, 3, 7], 'day')
    hour = ctx.pick([0, 4, 14, 23], 'hour')
    how = ctx.pick(HOW, 'entry point')
    df = series(list(days('2016-01-28', 8)))
    df.iloc[24 * day + hour, df.columns.get_loc(var)] = v
    check_all(ctx, df, how)


def scen_level(ctx):
    """Days much colder, warmer, calmer or windier than the others."""
    var, f, c = ctx.pick([('temp', 1.0, -70.0), ('temp', 1.0, 35.0), ('wind', 0.05, 0.0), ('wind', 9.0, 0.0),
                          ('hum', 0.02, 0.0), ('hum', 0.05, 96.0), ('glob', 0.01, 0.0)], 'level')
    which = ctx.pick([[0], [3], [7], [2, 3], [0, 1, 2, 3]], 'days')
    how = ctx.pick(HOW, 'entry point')
    df = series(list(days('2016-01-28', 8)))
    m = np.isin(np.arange(len(df)) // 24, which)
    df.loc[m, var] = df.loc[m, var] * f + c
    check_all(ctx, df, how)


def scen_maximum(ctx):
    """Hour of the daily maximum, ties."""
    a = ctx.choose(24, 'hour of the maximum')
    b = ctx.choose(24, 'hour of the maximum')
    kind = ctx.choose(3, 'month of the second day')
    dates = [pd.Timestamp('2016-01-10'), [pd.Timestamp('2016-01-11'), pd.Timestamp('2016-02-01'),
                                          pd.Timestamp('2017-01-05')][kind]]
    idx = hours_of(dates)
    v = 270.0 + (np.arange(48) % 5) * 0.1
    v[a] = 290.0
    v[24 + b] = 285.0
    if (a + b) % 3 == 0:
        v[(a + 4) % 24] = 290.0          # tie: the first one counts
    elif (a + b) % 3 == 1:
        v[max(a - 4, 0)] = 289.999 if a else v[a]
    s = pd.Series(v, index=idx, name='temp')
    got = melodist.get_shift_by_data(s, *PLACE)
    want = ref_shift(s)
    g = {int(m): float(x) for m, x in got.items() if x == x}
    ctx.check(set(g) == set(want), 'months %s, expected %s', sorted(g), sorted(want))
    for m in want:
        ctx.check(abs(g[m] - want[m]) < 1e-6, 'shift of month %s: %s, expected %s', m, g[m], want[m])
    ctx.observe(got)


def scen_wet(ctx):
    """All wet/dry patterns: a single wet hour makes the day wet, in any hour."""
    wet = [ctx.choose(2, 'wet') for _ in range(5)]
    hour = ctx.pick([0, 12, 23], 'wet hour')
    amount = ctx.pick([0.1, 1e-6], 'amount')
    start = ctx.pick(['2016-01-29', '2015-12-30'], 'start')
    df = series(list(days(start, 5)))
    p = np.zeros(120)
    for d, w in enumerate(wet):
        p[24 * d + hour] = amount if w else 0.0
    df['precip'] = p
    df.iloc[7::31, df.columns.get_loc('hum')] = 0.0
    df.iloc[5::37, df.columns.get_loc('hum')] = 104.0
    got = melodist.calculate_month_hour_precip_mean(df)
    want = ref_hum_means(df)
    g = {(int(a), int(b), bool(c)): float(v) for (a, b, c), v in got.items()}
    ctx.check(set(g) == set(want), 'categories differ')
    for k in want:
        ctx.check(abs(g[k] - want[k]) < 1e-9, 'humidity of %s: %s, expected %s', k, g[k], want[k])
    ctx.observe(got)


def scen_wind(ctx):
    """Parameters of generated data are recovered."""
    a = ctx.pick([0.3, 0.05, 0.9, -0.2, 0.5], 'amplitude')
    shift = ctx.pick([2.0 * k + 0.5 for k in range(12)], 'hour of the maximum')
    level = ctx.pick([1.0, 0.2, 9.0], 'mean wind speed')
    dates = days('2016-01-28', 5)
    idx = hours_of(dates)
    m = np.repeat(level * np.array([1.0, 2.0, 0.5, 3.0, 1.5]), 24)
    w = pd.Series(m * (1.0 + a * np.cos(np.pi * (np.asarray(idx.hour) - shift) / 12)), index=idx)
    p = melodist.fit_cosine_function(w)
    fa, fb, fs = (float(x) for x in p)
    expect(ctx, [fa * math.cos(math.pi * fs / 12), fa * math.sin(math.pi * fs / 12), fb],
           [a * math.cos(math.pi * shift / 12), a * math.sin(math.pi * shift / 12), 1.0], 'parameters',
           rtol=0, atol=1e-5)
    back = melodist.disaggregate_wind(w.resample('D').mean(), method='cosine', a=fa, b=fb, t_shift=fs)
    expect(ctx, back, w, 'disaggregated wind', rtol=1e-4, atol=1e-4)
    ctx.observe(w)


def scen_normalise(ctx):
    """Normalised and raw courses."""
    norm = bool(ctx.choose(2, 'normalise'))
    name = ctx.pick(['temp', None, 'T'], 'name')
    index_name = ctx.pick([None, 'date'], 'index name')
    n = ctx.pick([1, 2, 40, 366], 'days')
    s = series(list(days('2016-01-01', n))).temp.rename(name)
    s = 280.0 + (s - 280.0) * ctx.pick([1.0, 1e-3, 50.0], 'scale')
    s.index.name = index_name
    if norm:
        got = melodist.util.calculate_mean_daily_course_by_month(s, normalize=True)
    else:
        got = melodist.util.calculate_mean_daily_course_by_month(s)
    check_course(ctx, got, s, norm, 'course')
    ctx.observe(got)


def scenarios(tier):
    return [('months', scen_months), ('years', scen_years), ('missing', scen_missing), ('absent', scen_absent), ('outlier', scen_outlier), ('level', scen_level),
            ('maximum', scen_maximum), ('wet', scen_wet), ('wind', scen_wind), ('normalise', scen_normalise)]
