"""C15: potential radiation."""
import math

import numpy as np
import pandas as pd

from .. import ref_sun
from ..common import expect, hours_of
from ..repo import melodist

RULE = ('choice = latitude, longitude, time zone, cloud cover, slope and direction; every execution '
        'covers all hours of a fixed set of days of the year')
BOUNDS = dict(
    places='15 latitudes (poles, polar circles, tropics, equator) x 10 longitude/time zone pairs',
    times='24 hours (at the minutes 0, 7, 30, 59) of 40 days of a leap year, all 8784 hours for 4 places',
    terrain='5 slopes x 7 directions x 4 cloud fractions',
)
ASSUMPTIONS = ['clear-sky model of Liston and Elder (2006) as documented']

LATS = [0.0, 51.3, -51.3, 90.0, -90.0, 66.56, -66.56, 23.43697, -23.43697, 10.0, -10.0, 80.0, -75.0,
        23.0, 40.0]
PLACES = [(0.0, 0), (8.9, 1), (-105.2, -7), (179.9, 12), (-179.9, -12), (140.0, 9.5), (60.0, 0),
          (-175.0, 12), (175.0, -11), (-171.8, 13)]


def dates(n=40, minute=0):
    ds = [pd.Timestamp('2016-01-01') + pd.Timedelta(days=int(k)) for k in
          sorted(set(int(round(x)) for x in np.linspace(0, 365, n)) | {172, 59, 80})]
    idx = hours_of(ds)
    return idx + pd.Timedelta(minutes=minute)


def run(ctx, idx, lon, lat, tz, slope=0.0, azi=0.0, clouds=0.0):
    split = melodist.potential_radiation(idx, lon, lat, tz, terrain_slope=slope,
                                         terrain_slope_azimuth=azi, cloud_fraction=clouds, split=True)
    total = melodist.potential_radiation(idx, lon, lat, tz, terrain_slope=slope,
                                         terrain_slope_azimuth=azi, cloud_fraction=clouds)
    ctx.check(len(total) == len(idx) and (total.index == idx).all(), 'time stamps differ')
    v = np.asarray(total, dtype=float)
    ctx.check(np.isfinite(v).all(), 'potential radiation is not finite at %s',
              [str(t) for t in idx[~np.isfinite(v)][:3]])
    ctx.check((v >= 0).all(), 'negative potential radiation')
    ref = np.array([ref_sun.potential(t, lon, lat, tz, slope, azi, clouds) for t in idx])
    ctx.check((v <= ref[:, 2] + 1e-9).all(), 'more than the solar constant: %s', v.max())
    ctx.check((v[ref[:, 3] < 0] == 0).all(), 'radiation with the sun below the horizon')
    expect(ctx, total, np.asarray(split.direct) + np.asarray(split.diffuse), 'sum of both parts',
           index=idx)
    # at the horizon and in the zenith rounding decides about the tiny remainder: compare absolutely
    edge = (np.abs(ref[:, 3]) < 1e-9) | (ref[:, 3] > 1 - 1e-9)
    expect(ctx, np.asarray(split.direct)[~edge], ref[~edge, 0], 'direct radiation', index=idx[~edge],
           rtol=1e-7, atol=1e-5)
    expect(ctx, np.asarray(split.diffuse)[~edge], ref[~edge, 1], 'diffuse radiation', index=idx[~edge],
           rtol=1e-7, atol=1e-5)
    ctx.cover(hours=len(idx), hours_of_daylight=int((ref[:, 3] > 0).sum()))
    ctx.observe(v)
    return v


def scen_places(ctx):
    lat = ctx.pick(LATS, 'latitude')
    lon, tz = ctx.pick(PLACES, 'longitude and time zone')
    minute = ctx.pick([0, 30, 7, 59], 'minute')
    run(ctx, dates(minute=minute), lon, lat, tz)


def scen_terrain(ctx):
    lat = ctx.pick([0.0, 51.3, -51.3, 80.0, 90.0, -75.0, -20.0], 'latitude')
    slope = ctx.pick([0.0, 0.3, 1.2, math.pi / 2, 0.01], 'slope')
    clouds = ctx.pick([0.0, 0.3, 1.0, 0.75], 'clouds')
    idx = dates(8)
    vs = [run(ctx, idx, 8.9, lat, 1, slope, azi, clouds)
          for azi in (0.0, math.pi / 2, math.pi, 3 * math.pi / 2, -0.7, 2.0, 2 * math.pi)]
    if slope == 0:
        for v in vs[1:]:
            expect(ctx, v, vs[0], 'slope direction of flat terrain')


AXES = [pd.date_range('2016-06-20 03:00', periods=48, freq=f) for f in ('h', '30min', '3h', '10min', '24h', '7h')]
AXES.append(AXES[0][[k for k in range(48) if not 10 <= k < 30]])
AXES.append(AXES[0].append(AXES[0] + pd.Timedelta(days=100)))
AXES.append(AXES[0][:20].append(AXES[0][20:] + pd.Timedelta(days=9)))
AXES.append(AXES[0][::-1])


def scen_axes(ctx):
    """Series that share their first time stamp, length or end, one after the other."""
    a = ctx.choose(len(AXES), 'first series')
    b = ctx.choose(len(AXES), 'second series')
    lat = ctx.pick([51.3, -75.0], 'latitude')
    for k in (a, b):
        run(ctx, AXES[k], 8.9, lat, 1)


def scen_clouds(ctx):
    lat = ctx.pick(LATS, 'latitude')
    idx = dates(10)
    v = [run(ctx, idx, 8.9, lat, 1, clouds=c) for c in (0.0, 0.2, 0.5, 0.8, 1.0)]
    for a, b in zip(v, v[1:]):
        ctx.check((b <= a + 1e-9).all(), 'more clouds, more radiation')
        ctx.check((b[a > 1] < a[a > 1]).all(), 'clouds without effect')


def scen_symmetry(ctx):
    """Symmetric around noon; an hour of longitude or time zone shifts by one hour."""
    lat = ctx.pick(LATS, 'latitude')
    tz = ctx.pick([0, 1, -7], 'time zone')
    idx = dates(12)
    v = run(ctx, idx, 15.0 * tz, lat, tz).reshape(-1, 24)
    expect(ctx, v[:, 1:], v[:, :0:-1], 'symmetric around noon', rtol=1e-7, atol=1e-6)
    east = run(ctx, idx, 15.0 * (tz + 2), lat, tz).reshape(-1, 24)
    expect(ctx, east[:, :-2], v[:, 2:], 'two hours earlier 30 degrees further east', atol=1e-6)
    zone = run(ctx, idx, 15.0 * tz, lat, tz + 3).reshape(-1, 24)
    expect(ctx, zone[:, 3:], v[:, :-3], 'three hours later in another time zone', atol=1e-6)


def scen_year(ctx):
    lat, lon, tz = ctx.pick([(51.3, 8.9, 1), (-33.0, 151.2, 10), (78.2, 15.6, 1), (0.0, -78.5, -5)],
                            'place')
    y = ctx.pick([2016, 2015], 'year')
    run(ctx, pd.date_range('%d-01-01' % y, '%d-12-31 23:00' % y, freq='h'), lon, lat, tz)


def scen_inputs(ctx):
    """Dates as index, list or single element; results do not depend on the other dates."""
    lat = ctx.pick([51.3, 90.0, -23.0], 'latitude')
    idx = dates(6)
    full = melodist.potential_radiation(idx, 8.9, lat, 1)
    part = melodist.potential_radiation(list(idx[5::7]), 8.9, lat, 1)
    expect(ctx, part, full[5::7], 'every seventh hour')
    back = melodist.potential_radiation(idx[::-1], 8.9, lat, 1)
    expect(ctx, back, full[::-1], 'reversed order')
    one = melodist.potential_radiation(idx[11:12], 8.9, lat, 1)
    expect(ctx, one, full[11:12], 'single hour')
    ctx.observe(full)


def scenarios(tier):
    return [('places', scen_places), ('axes', scen_axes), ('terrain', scen_terrain), ('clouds', scen_clouds),
            ('symmetry', scen_symmetry), ('year', scen_year), ('inputs', scen_inputs)]
