"""C14: radiation disaggregation."""
import itertools
import math

import numpy as np
import pandas as pd

from .. import ref_sun
from ..common import NAN, days, debruijn, expect, expect_index, hours_of
from ..repo import melodist

RULE = ('choice = method, place, calendar position, daily values, monthly coefficients, entry point; every '
        'hour compared with the reference, daily means with the daily value')
BOUNDS = dict(
    daily='all words of 3 days over 4 values incl. zero and missing; all pairs of days by de Bruijn sequence',
    months='every start month, 12 different coefficient pairs and courses',
    places='7 places incl. polar nights, midnight sun and days of less than one hour',
)
ASSUMPTIONS = ['hourly values below 0.01 W/m2 count as zero',
               'a positive daily value on a day with daylight',
               'positive temperature range for the temperature based estimate']

GLOB = [180.0, 0.0, NAN, 20.5]
SSD = [7.0, 0.0, NAN, 3.3]
TMIN = [275.0, 280.0, 268.0, 279.0]
TMAX = [288.0, 287.0, 281.0, 296.0]


def coefs(kind):
    if kind == 'monthly':
        return (pd.DataFrame(dict(a=[0.20 + 0.01 * m for m in range(1, 13)],
                                  b=[0.40 + 0.02 * m for m in range(1, 13)]), index=range(1, 13)),
                pd.DataFrame(dict(a=[0.60 + 0.02 * m for m in range(1, 13)],
                                  c=[1.2 + 0.1 * m for m in range(1, 13)]), index=range(1, 13)))
    return (pd.DataFrame(dict(a=0.25, b=0.75), index=range(1, 13)),
            pd.DataFrame(dict(a=0.75, c=2.4), index=range(1, 13)))


def course():
    h = np.arange(24.0)
    return pd.DataFrame({m: np.clip(np.sin((h - 4 - m / 4.0) / (16 - m / 2.0) * np.pi), 0, None)
                         * (300 + 10 * m) * ((h > 4) & (h < 20)) for m in range(1, 13)}, index=range(24))


def pot_of(index, place):
    return np.array([sum(ref_sun.potential(t, place[1], place[0], place[2])[:2])
                     for t in hours_of(index)]).reshape(-1, 24)


def reference(index, df, place, method, ang, bc, mc):
    n = len(index)
    if method == 'mean_course':
        pot = np.array([mc[d.month].to_numpy() for d in index])
    else:
        pot = pot_of(index, place)
    mean = pot.mean(axis=1)
    if method in ('pot_rad', 'mean_course'):
        g = df.glob.to_numpy(dtype=float)
    elif method == 'pot_rad_via_ssd':
        g = []
        for d in range(n):
            dl = ref_sun.sun_times(index[d].timetuple().tm_yday, place[1], place[0], place[2])[3]
            m = index[d].month
            g.append((ang.a[m] + ang.b[m] * df.ssd.iloc[d] / dl) * mean[d] if dl > 0 else 0.0)
    else:
        tmin, tmax = df.tmin.to_numpy(dtype=float), df.tmax.to_numpy(dtype=float)
        nxt = np.append(np.where(np.diff(index) == np.timedelta64(1, 'D'), tmin[1:], NAN), tmin[-1])
        dt = tmax - (tmin + nxt) / 2
        g = []
        for d in range(n):
            m = index[d].month
            same = [dt[k] for k in range(n) if index[k].month == m and dt[k] == dt[k]]
            b = 0.036 * math.exp(-0.154 * sum(same) / len(same)) if same else NAN
            g.append(bc.a[m] * (1 - math.exp(-b * dt[d] ** bc.c[m])) * mean[d] if dt[d] == dt[d] else NAN)
    g = np.asarray(g, dtype=float)
    out = np.zeros((n, 24))
    for d in range(n):
        if g[d] == 0:
            continue
        out[d] = pot[d] / mean[d] * g[d]
    low = out < 1e-2
    out[low] = 0.0
    return out.ravel(), g, pot


PLACES = [(51.0, 8.9, 1), (-33.0, 151.0, 10), (69.6, 18.9, 1), (0.2, -78.0, -5), (80.0, 20.0, 1),
          (40.0, -105.0, -7), (66.6, 8.9, 1)]


def build(kinds, index):
    return pd.DataFrame(dict(glob=[GLOB[k] for k in kinds], ssd=[SSD[k] for k in kinds],
                             tmin=[TMIN[k] for k in kinds], tmax=[TMAX[k] for k in kinds]),
                        index=index, dtype=float)


def run(ctx, index, df, place, method, ang, bc, how):
    mc = course()
    if how == 'station':
        st = melodist.Station(lon=place[1], lat=place[0], timezone=place[2], data_daily=df)
        st.statistics.glob.angstroem = ang
        st.statistics.glob.bristcamp = bc
        st.statistics.glob.mean_course = mc
        st.disaggregate_radiation(method=method)
        out = st.data_disagg.glob
    else:
        pot = pd.Series(pot_of(index, place).ravel(), index=hours_of(index))
        sunt = pd.DataFrame([dict(zip(('sunrise', 'sunnoon', 'sunset', 'daylength'), ref_sun.sun_times(
            d.timetuple().tm_yday, place[1], place[0], place[2]))) for d in index], index=index)
        out = melodist.disaggregate_radiation(df, sun_times=sunt, pot_rad=pot, method=method,
                                              angstr_a=ang.a, angstr_b=ang.b, bristcamp_a=bc.a,
                                              bristcamp_c=bc.c, mean_course=mc)
    expect_index(ctx, out.index, hours_of(index), 'hourly index')
    want, g, pot = reference(index, df, place, method, ang, bc, mc)
    expect(ctx, out, want, method, index=out.index, rtol=1e-7, atol=1.1e-2 * 1e-2 + 1e-6)
    v = np.asarray(out, dtype=float).reshape(-1, 24)
    for d in range(len(index)):
        if g[d] == g[d]:
            ctx.check(abs(v[d].mean() - g[d]) < 1e-2, '%s: %s has mean %s, daily value %s', method,
                      index[d], v[d].mean(), g[d])
            ctx.check((v[d] >= 0).all() and (v[d][pot[d] <= 0] == 0).all(),
                      '%s: negative radiation or radiation at night', method)
        else:
            ctx.check(np.isnan(v[d][pot[d] > 1]).all(), 'missing daily value, but hourly values on %s',
                      index[d])
    ctx.observe(out)


METHODS = ['pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course']


def domain(index, df, place, method):
    """Daily values are zero or missing on days without daylight."""
    if method == 'pot_rad':
        dark = pot_of(index, place).sum(axis=1) < 1.0
        df = df.copy()
        df.loc[dark, 'glob'] = 0.0
    return df


def scen_absent(ctx):
    """Days that are not in the table."""
    keep = [True] + [not ctx.choose(2, 'absent') for _ in range(5)] + [True]
    method = ctx.pick(METHODS, 'method')
    start = ctx.pick(['2016-02-26', '2015-12-28'], 'start')
    place = ctx.pick(PLACES[:2], 'place')
    index = days(start, 7)[keep]
    df = build([0, 3, 0, 3, 0, 0, 3], days(start, 7))[keep]
    df['tmin'] += np.arange(len(df)) * 0.7
    run(ctx, index, df, place, method, *coefs('monthly'), 'direct')


def scen_pairs(ctx):
    method = ctx.pick(METHODS, 'method')
    place = ctx.pick(PLACES, 'place')
    month = ctx.pick([1, 3, 6, 11, 12] if ctx.tier == 'quick' else range(1, 13), 'start month')
    how = ctx.pick(['station', 'direct'], 'entry point')
    kind = ctx.pick(['monthly', 'constant'], 'coefficients')
    index = days('2015-%02d-21' % month, 17)
    ang, bc = coefs(kind)
    df = build(debruijn(4, 2), index)
    run(ctx, index, domain(index, df, place, method), place, method, ang, bc, how)


def scen_words(ctx):
    method = ctx.pick(METHODS, 'method')
    n = ctx.pick([3, 2, 1], 'days')
    kinds = [ctx.choose(4, 'day') for _ in range(n)]
    index = days('2016-02-28', n)
    ang, bc = coefs('monthly')
    run(ctx, index, build(kinds, index), PLACES[0], method, ang, bc, 'station')


def scen_bc_missing(ctx):
    """Missing minima and maxima for the temperature based estimate."""
    states = [ctx.pick(['both', 'no minimum', 'no maximum', 'none'], 'day') for _ in range(3)]
    index = days('2016-04-29', 4)
    df = build([0, 1, 3, 0], index)
    for i, s in enumerate(states):
        if s in ('no minimum', 'none'):
            df.iloc[i, df.columns.get_loc('tmin')] = np.nan
        if s in ('no maximum', 'none'):
            df.iloc[i, df.columns.get_loc('tmax')] = np.nan
    ang, bc = coefs('monthly')
    run(ctx, index, df, PLACES[0], 'pot_rad_via_bc', ang, bc, ctx.pick(['station', 'direct'], 'entry'))


def scen_year(ctx):
    method = ctx.pick(METHODS, 'method')
    place = ctx.pick(PLACES, 'place')
    index = days('2015-06-20', 400)
    shift = ctx.pick(range(4), 'shift of the values')
    df = build([(k * 3 + k // 5 + shift) % 4 for k in range(400)], index)
    ang, bc = coefs('monthly')
    run(ctx, index, domain(index, df, place, method), place, method, ang, bc, 'station')


def scen_extremes(ctx):
    """Very small and very large daily values."""
    method = ctx.pick(METHODS, 'method')
    how = ctx.pick(['station', 'direct'], 'entry point')
    place = ctx.pick(PLACES[:3], 'place')
    index = days('2016-06-01', 8)
    df = build([0] * 8, index)
    k = ctx.choose(8, 'rotation')
    df['glob'] = np.roll([0.5, 5.0, 320.0, 410.0, 470.0, 560.0, 1400.0, 90.0], k)
    df['ssd'] = np.roll([0.01, 14.0, 16.5, 18.0, 24.0, 1.0, 26.0, 8.0], k)
    df['tmin'] = np.roll([233.0, 250.0, 300.0, 290.0, 280.0, 283.0, 260.0, 299.0], k)
    df['tmax'] = np.roll([320.0, 301.0, 300.5, 330.0, 315.0, 309.0, 308.0, 312.0], k)
    ang, bc = coefs('monthly')
    run(ctx, index, df, place, method, ang, bc, how)


def scen_range(ctx):
    """Small temperature ranges for the temperature based estimate."""
    ranges = [ctx.pick([5.0, 0.0, 0.02, 0.3], 'range') for _ in range(4)]
    how = ctx.pick(['station', 'direct'], 'entry point')
    index = days('2016-04-29', 4)
    df = build([0] * 4, index)
    df['tmax'] = df.tmin + ranges
    run(ctx, index, df, PLACES[0], 'pot_rad_via_bc', *coefs('monthly'), how)


def scen_scalar(ctx):
    """Scalar coefficients in the generic function, and its defaults."""
    method = ctx.pick(['pot_rad_via_ssd', 'pot_rad_via_bc'], 'method')
    given = ctx.pick([True, False], 'coefficients given')
    place = PLACES[0]
    index = days('2016-04-20', 16)
    df = build(debruijn(4, 2)[:16], index)
    pot = pd.Series(pot_of(index, place).ravel(), index=hours_of(index))
    sunt = pd.DataFrame([dict(daylength=ref_sun.sun_times(d.timetuple().tm_yday, place[1], place[0],
                                                          place[2])[3]) for d in index], index=index)
    a, b, A, C = (0.19, 0.61, 0.7, 2.1) if given else (0.25, 0.5, 0.75, 2.4)
    kw = dict(angstr_a=a, angstr_b=b, bristcamp_a=A, bristcamp_c=C) if given else {}
    out = melodist.disaggregate_radiation(df, sun_times=sunt, pot_rad=pot, method=method, **kw)
    ang = pd.DataFrame(dict(a=a, b=b), index=range(1, 13))
    bc = pd.DataFrame(dict(a=A, c=C), index=range(1, 13))
    want, _, _ = reference(index, df, place, method, ang, bc, None)
    expect(ctx, out, want, method, index=out.index, rtol=1e-7, atol=1e-6)
    ctx.observe(out)


def scen_given_pot(ctx):
    """Potential radiation supplied by the user is used."""
    place = ctx.pick(PLACES[:2], 'place')
    how = ctx.pick(['pot_rad', 'pot_rad_via_bc'], 'method')
    index = days('2016-05-30', 4)
    df = build([0, 3, 1, 0], index)
    pot = pd.Series(np.tile(np.where(np.arange(24) % 6 == 3, 100.0 + np.arange(24), 0.0), 4),
                    index=hours_of(index))
    st = melodist.Station(lon=place[1], lat=place[0], timezone=place[2], data_daily=df)
    st.disaggregate_radiation(method=how, pot_rad=pot)
    v = np.asarray(st.data_disagg.glob).reshape(-1, 24)
    p = pot.to_numpy().reshape(-1, 24)
    ctx.check((v[p == 0] == 0).all(), 'radiation without potential radiation')
    for d in range(4):
        if v[d].any():
            expect(ctx, v[d] / v[d].mean(), p[d] / p[d].mean(), 'shape of the day')
    if how == 'pot_rad':
        expect(ctx, v.mean(axis=1), df.glob, 'daily means')
    ctx.observe(v)


def scenarios(tier):
    return [('pairs', scen_pairs), ('absent-days', scen_absent), ('words', scen_words), ('temperature-missing', scen_bc_missing),
            ('year', scen_year), ('extremes', scen_extremes), ('small-ranges', scen_range), ('scalar', scen_scalar), ('given-potential', scen_given_pot)]
