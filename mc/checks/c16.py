"""C16: sun times."""
import numpy as np
import pandas as pd

from .. import ref_sun
from ..common import days, expect, expect_index
from ..repo import melodist

RULE = ('choice = latitude, longitude, time zone, year, subset and order of dates; every execution covers '
        'every day of the year')
BOUNDS = dict(
    places='17 latitudes incl. poles x 13 longitude/time zone pairs x leap and common year, every day',
    subsets='all subsets of 8 dates across the year end (thorough 10), reversed and repeated dates',
)
ASSUMPTIONS = ['declination after Bourges (1985), equation of time after Spencer (1971) as documented']

LATS = [0.0, 51.3, -51.3, 90.0, -90.0, 66.56, -66.56, 67.5, -67.5, 23.4, -23.4, 80.0, -75.0, 10.0, 35.0,
        -35.0, 62.0]
PLACES = [(0.0, 0), (8.9, 1), (-105.2, -7), (179.9, 12), (-179.9, -12), (140.0, 9.5), (15.0, 0),
          (-15.0, 2), (77.0, 5.5), (-172.0, 13), (-157.4, 14), (179.0, -11), (-176.5, 12.75)]
COLS = ['sunrise', 'sunnoon', 'sunset', 'daylength']


def get(index, lon, lat, tz, how='function'):
    if how == 'function':
        return melodist.util.get_sun_times(index, lon, lat, tz)
    st = melodist.Station(lon=lon, lat=lat, timezone=tz,
                          data_daily=pd.DataFrame(dict(temp=280.0), index=index))
    st.calc_sun_times()
    return st.sun_times


def relations(ctx, df, what):
    v = {c: np.asarray(df[c], dtype=float) for c in COLS}
    for c in COLS:
        ctx.check(np.isfinite(v[c]).all(), '%s: %s is not finite', what, c)
    ctx.check(((v['daylength'] >= 0) & (v['daylength'] <= 24 + 1e-9)).all(),
              '%s: day length out of range: %s .. %s', what, v['daylength'].min(), v['daylength'].max())

    def circ(x):
        return np.abs((x + 12.0) % 24.0 - 12.0)

    ctx.check((circ(v['sunset'] - v['sunrise'] - v['daylength']) < 1e-9).all(),
              '%s: day length is not sunset - sunrise', what)
    ctx.check((circ(v['sunset'] + v['sunrise'] - 2 * v['sunnoon']) < 1e-9).all(),
              '%s: sunrise and sunset are not symmetric around noon', what)
    return v


def scen_places(ctx):
    lat = ctx.pick(LATS, 'latitude')
    lon, tz = ctx.pick(PLACES, 'longitude and time zone')
    year = ctx.pick([2016, 2015], 'year')
    index = pd.date_range('%d-01-01' % year, '%d-12-31' % year, freq='D')
    df = get(index, lon, lat, tz, 'station' if (lat, lon) in ((51.3, 8.9), (80.0, 0.0)) else 'function')
    expect_index(ctx, df.index, index, 'dates')
    v = relations(ctx, df, 'lat %s lon %s' % (lat, lon))
    want = np.array([ref_sun.sun_times(d.timetuple().tm_yday, lon, lat, tz) for d in index])
    for k, c in enumerate(COLS):
        expect(ctx, v[c], want[:, k], c, index=index, rtol=1e-8, atol=1e-7)
    # day length grows from winter to summer
    dl = v['daylength']
    s = 1 if lat > 0 else -1
    if lat != 0:
        ctx.check((s * np.diff(dl[5:165]) >= -1e-9).all() and (s * np.diff(dl[180:345]) <= 1e-9).all(),
                  'day length does not follow the seasons at latitude %s', lat)
    ctx.cover(polar_nights=int((dl == 0).sum()), midnight_suns=int((dl > 24 - 1e-9).sum()))
    ctx.observe(np.column_stack([v[c] for c in COLS]))


def scen_almanac(ctx):
    """Published values: solar noon at Greenwich (equation of time) and geometric day length."""
    date, noon = ctx.pick([('2015-02-11', 12.237), ('2015-05-14', 11.939), ('2015-07-26', 12.109),
                           ('2015-11-03', 11.727), ('2015-04-16', 12.0), ('2015-12-25', 12.0)], 'date')
    df = get(pd.DatetimeIndex([date]), 0.0, 51.5, 0)
    ctx.check(abs(df.sunnoon.iloc[0] - noon) < 0.03, 'solar noon %s, almanac %s', df.sunnoon.iloc[0], noon)
    for d, lat, hours in (('2015-06-21', 52.5, 16.58), ('2015-12-22', 52.5, 7.43),
                          ('2015-06-21', -33.9, 9.75), ('2015-03-21', 40.0, 12.0)):
        x = get(pd.DatetimeIndex([d]), 0.0, lat, 0).daylength.iloc[0]
        ctx.check(abs(x - hours) < 0.1, 'day length %s at %s, lat %s: expected %s', x, d, lat, hours)
    ctx.observe(df.sunnoon.iloc[0])


def scen_noon(ctx):
    """Noon is independent of latitude, moves with longitude and time zone."""
    lon, tz = ctx.pick(PLACES, 'longitude and time zone')
    index = days('2016-01-01', 366)
    a = get(index, lon, 20.0, tz)
    for lat in (-80.0, 0.0, 51.0, 85.0):
        b = get(index, lon, lat, tz)
        expect(ctx, b.sunnoon, a.sunnoon, 'noon at another latitude')
    expect(ctx, get(index, lon + 7.0, 20.0, tz).sunnoon, a.sunnoon - 7 * 4 / 60.0, 'noon 7 degrees east')
    expect(ctx, get(index, lon, 20.0, tz + 2).sunnoon, a.sunnoon + 2.0, 'noon two time zones later')
    expect(ctx, get(index, lon, 20.0, tz + 2).daylength, a.daylength, 'day length')
    ctx.observe(a.sunnoon)


def scen_far(ctx):
    """Clocks which are (almost) half a day off."""
    lat = ctx.pick([0.0, 51.3, 75.0, -80.0], 'latitude')
    lon, tz = ctx.pick([(178.0, 0), (-178.0, 0), (0.0, 11.9), (0.0, -11.9), (100.0, -4), (-90.0, 5)], 'place')
    index = pd.date_range('2016-01-01', '2016-12-31', freq='D')
    df = get(index, lon, lat, tz)
    v = relations(ctx, df, 'lat %s lon %s time zone %s' % (lat, lon, tz))
    want = np.array([ref_sun.sun_times(d.timetuple().tm_yday, lon, lat, tz) for d in index])
    for k, c in enumerate(COLS):
        diff = np.abs(v[c] - want[:, k])
        if c != 'daylength':
            diff = np.minimum(diff % 24.0, -diff % 24.0)
        ctx.check((diff < 1e-7).all(), '%s on %s: %s, expected %s', c, index[diff.argmax()], v[c][diff.argmax()],
                  want[diff.argmax(), k])
    ctx.observe(np.column_stack([v[c] for c in COLS]))


def scen_subsets(ctx):
    """Each date is independent of the other dates."""
    lat = ctx.pick([51.3, 70.0], 'latitude')
    dates = [pd.Timestamp(x) for x in ('2015-12-29', '2015-12-31', '2016-01-01', '2016-02-28', '2016-02-29',
                                       '2016-03-01', '2016-12-31', '2017-03-01', '2017-06-20',
                                       '2020-12-31')]
    n = 10 if ctx.tier == 'thorough' else 8
    keep = [bool(ctx.choose(2, 'date')) for _ in range(n)]
    if not any(keep):
        return
    index = pd.DatetimeIndex([d for d, k in zip(dates, keep) if k])
    order = ctx.choose(2, 'reversed')
    if order:
        index = index[::-1]
    df = get(index, 8.9, lat, 1)
    expect_index(ctx, df.index, index, 'dates')
    for i, d in enumerate(index):
        want = ref_sun.sun_times(d.timetuple().tm_yday, 8.9, lat, 1)
        expect(ctx, [df[c].iloc[i] for c in COLS], want, 'sun times of %s' % d.date(), rtol=1e-8, atol=1e-7)
    ctx.observe(df.astype(float))


def scenarios(tier):
    return [('places', scen_places), ('almanac', scen_almanac), ('noon', scen_noon), ('far-zones', scen_far),
            ('subsets', scen_subsets)]
