"""C18: results depend only on the current settings, not on history."""
import numpy as np
import pandas as pd

from .. import fix
from ..common import cyc, scripted_random
from ..pristine import Pristine
from ..repo import melodist
from ..snap import snap, where

RULE = ('choice = the next operation (all operation sequences up to the depth, nothing merged); model state = '
        'current settings and, for each variable, the settings its result was calculated with; after every '
        'operation the station is compared with fresh stations in processes that did nothing else')
BOUNDS = dict(
    operations='switch longitude, latitude, time zone, daily data (other dates, other values, more days) or statistics between two '
               'values, replace the observations, assign statistics without content, recalculate sun times, calibrate temperature, 7 disaggregations',
    depth='all sequences of 3 operations (thorough 4) from a complete station, 2 (3) from incomplete ones, '
          '4 (5) changes of place, all 120 orders of setting up a station, all pairs of methods',
)
ASSUMPTIONS = ['random numbers are answered with a constant']

LON = [8.9, 23.4, -8.9, None]
LAT = [51.3, 72.5, -51.3]
TZ = [1, -3, -1]
# other dates, other values only, more days
DATA = [('2016-01-30', 4, 0), ('2015-06-29', 4, 1), ('2016-01-30', 4, 2), ('2016-01-30', 6, 1)]
DIS = ['temp sine_min_max sun_loc_shift', 'temp mean_course_min_max', 'glob pot_rad', 'glob pot_rad_via_ssd',
       'hum minimal', 'precip cascade', 'wind cosine']
HUM = 'hum linear_dewpoint_variation'
_cache = {}
_pristine = []
_sun = {}
_tables = {}


def holes():
    """Same days as the first table, a variable and some values less."""
    df = fix.daily(*DATA[2]).drop(columns='wind')
    df.iloc[1, [1, 3, 4]] = np.nan
    return df


def table(k):
    if k not in _tables:
        _tables[k] = (fix.daily(*DATA[k]), fix.hourly(*DATA[k])) if k < 4 else (holes(), None)
    return _tables[k]


def observations(k):
    return table(0)[1] if k == 0 else pd.concat([table(1)[1], table(0)[1]]).sort_index()


def stats(k):
    if k == 2:
        # nothing calculated yet
        return melodist.StationStatistics(data=observations(0))
    s = fix.statistics(k)
    s.data = observations(k)
    return s


def disagg(st, op):
    with scripted_random(cyc([0.4, 0.9])):
        fix.OPS[op][1](st)


class Model:
    """Plain record of what was assigned."""

    def __init__(self):
        self.lon = self.lat = self.tz = self.data = None
        self.stats = self.obs = 0
        self.calib = None       # location and observations at the time of the calibration
        self.results = {}       # variable -> key of fresh result

    def other(self, kind):
        if kind == 'values':
            return 2 if self.data == 0 else 0
        if kind == 'dates':
            return {0: 1, 1: 3}.get(self.data, 0)
        if kind in ('data', 'stats', 'obs'):
            return 1 if getattr(self, kind) == 0 else 0
        return 1 if getattr(self, kind) == dict(lon=LON, lat=LAT, tz=TZ)[kind][0] else 0

    def settings(self):
        return (self.lon, self.lat, self.tz, self.data, self.stats, self.calib)


def apply_settings(m):
    lon, lat, tz, data, s, calib = m
    st = melodist.Station(lon=lon, lat=lat, timezone=tz,
                          data_daily=None if data is None else table(data)[0])
    st.statistics = stats(s)
    if calib is not None:
        temp = observations(calib[3]).temp
        st.statistics.temp.update(
            max_delta=melodist.get_shift_by_data(temp, *calib[:3]),
            mean_course=melodist.util.calculate_mean_daily_course_by_month(temp, normalize=True))
    return st


def single(settings, op, temp):
    """The result of one operation on a new station."""
    if settings is None:
        base = table(0)[0]
        st = fix.station(base, temp=fix.hourly_temp(base))
    else:
        st = apply_settings(settings)
    if temp is not None:
        st.data_disagg.temp = temp
    disagg(st, op)
    return st.data_disagg[fix.OPS[op][0]].to_numpy(dtype=float)


def fresh(settings, op, temp_key):
    """Result of `op` on a freshly created station, or None if it fails."""
    key = (settings, op, temp_key)
    if key not in _cache:
        ok, out = _pristine[0](settings, op, value(temp_key))
        _cache[key] = out if ok else None
    return _cache[key]


def value(key):
    return None if key is None else fresh(*key)


# assignments switch between the two values
SET = [('lon', None), ('lat', None), ('tz', None), ('data', None), ('stats', None)]
ALL = SET + [('values', None), ('sun', None), ('calib', None)] + [('run', op) for op in DIS]
PLACE = SET[:3] + [('dates', None)] + [('run', DIS[0]), ('run', DIS[2])]
STATS = [SET[4], ('calib', None), ('obs', None), SET[0], SET[2], SET[3], ('run', DIS[0]), ('run', DIS[1]), ('run', HUM)]
BARE = [('stats', 2), SET[4], ('calib', None), ('run', DIS[0]), ('run', DIS[1]), ('run', DIS[3]), ('run', DIS[6]),
        ('run', HUM), ('run', DIS[5])]
SIGNS = [('lat', 2), ('lon', 2), ('tz', 2), ('lon', 3), ('data', 4)] + SET[:4] + [('run', DIS[0]), ('run', DIS[2]), ('run', DIS[6])]
RUNS = [('run', op) for op in DIS] + [('data', None), ('values', None)]


def step(ctx, st, m, op):
    kind, arg = op
    ok = True
    if kind in ('lon', 'lat', 'tz', 'data', 'values', 'dates', 'stats', 'obs') and arg is None:
        arg = m.other(kind)
    if kind == 'lon':
        st.lon = LON[arg]
        m.lon = LON[arg]
    elif kind == 'lat':
        st.lat = LAT[arg]
        m.lat = LAT[arg]
    elif kind == 'tz':
        st.timezone = TZ[arg]
        m.tz = TZ[arg]
    elif kind in ('data', 'values', 'dates'):
        st.data_daily = table(arg)[0].copy()
        m.data = arg
        m.results = {}
    elif kind == 'stats':
        s = stats(arg)
        if arg == 2:
            pass
        elif arg:
            # statistics that were created for or belonged to a station elsewhere
            other = melodist.Station(lon=-60.0, lat=-33.0, timezone=-4)
            other.statistics = s
        else:
            t = melodist.StationStatistics(lon=100.0, lat=-20.0, timezone=7)
            t.data = s.data
            s = fix.fill(t, 0)
        st.statistics = s
        m.stats, m.obs, m.calib = arg, arg % 2, None
    elif kind == 'obs':
        st.statistics.data = observations(arg)
        m.obs = arg
    elif kind == 'sun':
        try:
            st.calc_sun_times()
        except Exception:
            ok = False
        ctx.check(ok == (None not in (m.lon, m.lat, m.tz, m.data)), 'sun times %s',
                  'failed' if not ok else 'calculated without location')
    elif kind == 'calib':
        if None in (m.lon, m.lat, m.tz):
            return
        st.statistics.calc_temperature_stats()
        m.calib = (m.lon, m.lat, m.tz, m.obs)
    else:
        var = fix.OPS[arg][0]
        tk = m.results.get('temp') if var == 'hum' else None
        want = fresh(m.settings(), arg, tk)
        try:
            disagg(st, arg)
        except Exception as e:
            ctx.check(want is None, '%s failed (%s: %s), but works with a fresh station', arg,
                      type(e).__name__, e)
        else:
            ctx.check(want is not None, '%s works, but fails with a fresh station', arg)
            m.results[var] = (m.settings(), arg, tk)
    compare(ctx, st, m, op)


def compare(ctx, st, m, op):
    if m.data is None:
        ctx.check(st.data_disagg is None, 'results without data')
        return
    for var in ('temp', 'precip', 'glob', 'hum', 'wind'):
        got = st.data_disagg[var].to_numpy(dtype=float)
        want = value(m.results.get(var))
        if want is None:
            ctx.check(np.isnan(got).all(), 'after %s: %s has values that were never calculated', op, var)
        else:
            ctx.work += len(want)
            ctx.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True),
                      'after %s: %s differs from the result of a fresh station', op, var)
    place = (m.lon, m.lat, m.tz)
    if None not in place and st.sun_times is not None:
        if (place, m.data) not in _sun:
            _sun[place, m.data] = melodist.util.get_sun_times(table(m.data)[0].index, *place).to_numpy(dtype=float)
        ctx.check(np.allclose(st.sun_times.to_numpy(dtype=float), _sun[place, m.data], rtol=1e-9, atol=1e-9),
                  'after %s: sun times differ from those of the current place', op)
    d = table(m.data)[0]
    ctx.check(st.data_daily.equals(d), 'daily data changed by %s', op)


def start(ctx, kind):
    m = Model()
    if kind == 'complete':
        st = melodist.Station(lon=LON[0], lat=LAT[0], timezone=TZ[0], data_daily=table(0)[0].copy())
        m.lon, m.lat, m.tz, m.data = LON[0], LAT[0], TZ[0], 0
    elif kind == 'no data':
        st = melodist.Station(lon=LON[0], lat=LAT[0], timezone=TZ[0])
        m.lon, m.lat, m.tz = LON[0], LAT[0], TZ[0]
    else:
        st = melodist.Station()
    st.statistics = stats(0)
    return st, m


def explore(ctx, alphabet, depth, kinds, extra=()):
    st, m = start(ctx, ctx.pick(kinds, 'initial station'))
    for _ in range(depth):
        op = ctx.pick(alphabet, 'operation')
        step(ctx, st, m, op)
        ctx.observe(m.settings(), sorted(m.results.items()))
    # probes: sun times and every disaggregation
    if None not in (m.lon, m.lat, m.tz, m.data):
        probes = DIS
        if ctx.tier == 'quick':
            probes = [DIS[0], DIS[3], DIS[4]] if ctx.choices[-1] % 2 else [DIS[4], DIS[2], DIS[0], DIS[5]]
        for op in list(probes) + list(extra):
            step(ctx, st, m, ('run', op))


def scen_all(ctx):
    explore(ctx, ALL, 4 if ctx.tier == 'thorough' else 3, ['complete'])


def scen_incomplete(ctx):
    explore(ctx, ALL, 3 if ctx.tier == 'thorough' else 2, ['no data', 'empty'])


def scen_place(ctx):
    explore(ctx, PLACE, 5 if ctx.tier == 'thorough' else 4, ['complete'])


def scen_stats(ctx):
    explore(ctx, STATS, 4 if ctx.tier == 'thorough' else 3, ['complete'], [HUM])


def scen_bare(ctx):
    """Statistics without any content replace complete ones and the other way round."""
    explore(ctx, BARE, 4 if ctx.tier == 'thorough' else 3, ['complete'], [DIS[6], HUM])


def scen_signs(ctx):
    """The same place on the other side of equator or prime meridian, no place, tables with less content."""
    explore(ctx, SIGNS, 3 if ctx.tier == 'thorough' else 2, ['complete', 'no data'], [DIS[6]])


def scen_runs(ctx):
    explore(ctx, RUNS, 4 if ctx.tier == 'thorough' else 3, ['complete'])


def scen_setup(ctx):
    """Every order of assigning location, time zone, data and statistics to an empty station."""
    todo = [('lon', 1), ('lat', 0), ('tz', 1), ('data', 1), ('stats', 1)]
    st = melodist.Station()
    st.statistics = stats(0)
    m = Model()
    while todo:
        op = ctx.pick(todo, 'next')
        todo.remove(op)
        step(ctx, st, m, op)
    step(ctx, st, m, ('calib', 0))
    for op in DIS:
        step(ctx, st, m, ('run', op))
    ctx.observe(m.settings())


def scen_repeat(ctx):
    """Every method followed by every method; the first once more."""
    names = sorted(n for n in fix.OPS)
    a = ctx.pick(names, 'first')
    b = ctx.pick(names, 'second')
    base = table(0)[0]
    st = fix.station(base, temp=fix.hourly_temp(base))
    va, vb = fix.OPS[a][0], fix.OPS[b][0]
    disagg(st, a)
    one = st.data_disagg.copy()
    want = fresh(None, a, None)
    ctx.check(want is not None and np.allclose(one[va], want, rtol=1e-12, atol=0, equal_nan=True),
              '%s gives another result than in a new process', a)
    disagg(st, b)
    two = st.data_disagg.copy()
    for v in one.columns:
        if v != vb:
            ctx.check(one[v].equals(two[v]), '%s changed %s', b, v)
    st.data_disagg.temp = fix.hourly_temp(base).reindex(st.data_disagg.index)
    disagg(st, a)
    ctx.check(np.allclose(one[va], st.data_disagg[va], rtol=1e-12, atol=0, equal_nan=True),
              'repeating %s after %s gives another result', a, b)
    # the second one alone
    solo = fix.station(base, temp=fix.hourly_temp(base))
    if vb == 'hum' and va == 'temp':
        solo.data_disagg.temp = one.temp
    disagg(solo, b)
    ctx.check(np.allclose(two[vb], solo.data_disagg[vb], rtol=1e-12, atol=0, equal_nan=True),
              '%s after %s differs from %s alone', b, a, b)
    ctx.observe(two)


CALIBRATIONS = {
    'precip': ('precip', lambda s: s.calc_precipitation_stats()),
    'precip seasons': ('precip', lambda s: s.calc_precipitation_stats(months=[[2, 1], [3]])),
    'precip levels': ('precip', lambda s: s.calc_precipitation_stats(avg_stats=False)),
    'precip percentile': ('precip', lambda s: s.calc_precipitation_stats(percentile=80)),
    'wind': ('wind', lambda s: s.calc_wind_stats()),
    'humidity': ('hum', lambda s: s.calc_humidity_stats()),
    'temperature': ('temp', lambda s: s.calc_temperature_stats()),
    'radiation': (None, lambda s: s.calc_radiation_stats()),
}


def scen_calibrations(ctx):
    """A calibration after others and after other observations gives what it gives alone."""
    names = sorted(CALIBRATIONS)
    s = melodist.StationStatistics(data=fix.hourly('2016-02-26', 8), lon=8.9, lat=51.3, timezone=1)
    for _ in range(3 if ctx.tier == 'thorough' else 2):
        CALIBRATIONS[ctx.pick(names, 'before')][1](s)
    salt = ctx.choose(2, 'other observations')
    data = fix.hourly('2016-02-26', 8, salt)
    if salt:
        s.data = data
    last = ctx.pick([n for n in names if CALIBRATIONS[n][0]], 'last')
    part, run = CALIBRATIONS[last]
    run(s)
    alone = melodist.StationStatistics(data=data, lon=8.9, lat=51.3, timezone=1)
    run(alone)
    d = where(snap(dict(getattr(alone, part))), snap(dict(getattr(s, part))))
    ctx.check(d is None, 'calibrating %s after other calibrations differs from calibrating it alone %s', last, d)
    ctx.observe(repr(snap(dict(getattr(s, part)))))


def scenarios(tier):
    if not _pristine:
        _pristine.append(Pristine(single))
    return [('setup', scen_setup), ('repeat', scen_repeat), ('place', scen_place), ('stats', scen_stats),
            ('bare', scen_bare), ('calibrations', scen_calibrations), ('signs', scen_signs),
            ('runs', scen_runs), ('all', scen_all), ('incomplete', scen_incomplete)]
