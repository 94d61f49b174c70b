"""C19: inputs are never modified, copies are isolated."""
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import casc, fix
from ..common import cyc, scripted_random
from ..repo import melodist
from ..snap import snap, where

RULE = ('choice = operation, second operation, form of the inputs; exact comparison of every argument before '
        'and after, of the first result after the second operation, and of results after changes of the '
        'inputs')
BOUNDS = dict(operations='all public functions with every method', pairs='all pairs of functions',
              inputs='complete, with missing and many missing values, with absent days, with named index, midnight sun')
ASSUMPTIONS = ['the header dictionary given to the SMET writer is completed by the writer',
               'random numbers are answered with a constant']

FORMS = ['complete', 'missing', 'named', 'absent', 'many missing', 'polar']


class Inputs:
    pass


def inputs(form):
    x = Inputs()
    n = 8
    x.daily = fix.daily('2016-02-26', n)
    x.hourly = fix.hourly('2016-02-26', n).asfreq('h')
    if form == 'missing':
        x.daily.iloc[2] = np.nan
        x.daily.iloc[5, 2:6] = np.nan
        x.hourly.iloc[30:40] = np.nan
        x.hourly.iloc[100, 1] = np.nan
    elif form == 'many missing':
        x.daily.iloc[[0, 2, 3, 4, 6]] = np.nan
        x.hourly.iloc[5:60] = np.nan
        x.hourly.iloc[70:170:3] = np.nan
    elif form == 'named':
        x.daily.index.name = 'date'
        x.hourly.index.name = 'time'
        x.daily.columns.name = 'variable'
    elif form == 'absent':
        x.daily = x.daily.drop(index=x.daily.index[[3]])
        x.hourly = x.hourly.drop(index=x.hourly.index[72:96])
    x.temp = fix.hourly_temp(x.daily)
    # stand-alone series with their own index
    x.series = {c: pd.Series(x.hourly[c].to_numpy().copy(), name=x.hourly[c].name,
                             index=pd.DatetimeIndex(x.hourly.index.to_numpy().copy(), name=x.hourly.index.name,
                                                    freq=x.hourly.index.freq))
                for c in x.hourly.columns}
    x.precip, x.wind = [pd.Series(x.daily[c].to_numpy().copy(), name=c,
                                  index=pd.DatetimeIndex(x.daily.index.to_numpy().copy(), name=x.daily.index.name,
                                                         freq=x.daily.index.freq)) for c in ('precip', 'wind')]
    # midnight sun with a sunrise before midnight
    place = (25.0, -86.0, 1) if form == 'polar' else (8.9, 51.3, 1)
    x.sun = melodist.util.get_sun_times(x.daily.index, *place)
    x.pot = melodist.potential_radiation(x.temp.index, *place)
    x.stats = fix.statistics()
    x.stats.glob.angstroem.loc[3] = -0.05, 1.2
    x.stats.glob.bristcamp.loc[3] = 1.1, 0.0
    x.stats.wind.a = -0.2
    x.casc = casc.mixed(casc.THR5)
    x.levels = [casc.mixed([t]) for t in casc.THR5]
    x.casc9 = casc.mixed(casc.THR11[:9])
    x.master = fix.master(fix.daily('2016-02-26', n).index)
    x.months = [np.array([3]), np.array([2, 1])]
    x.fine = pd.DataFrame(dict(precip=np.where(np.arange(1024) % 7 < 2, 0.5, 0.0)),
                          index=pd.date_range('2016-02-26', periods=1024, freq='5min'))
    x.hours = {'tmin': 7, 'tmax': 14}
    # coefficients as stand-alone series
    x.coef = [pd.Series([v + 0.01 * m for m in range(1, 13)], index=range(1, 13), name='coefficient')
              for v in (0.2, 0.5, 0.7, 2.0)]
    x.coef[0].iloc[2] = -0.05
    x.other = pd.Series(x.series['temp'].to_numpy().copy(), index=x.series['temp'].index.copy(), name='T2M')
    return x


def to_file(call):
    d = tempfile.mkdtemp(prefix='mc-c19-')
    try:
        name = os.path.join(d, 'f')
        call(name)
        with open(name) as f:
            return f.read()
    finally:
        shutil.rmtree(d)


def statistics_of(x, call):
    s = melodist.StationStatistics(data=x.hourly, lon=8.9, lat=51.3, timezone=1)
    call(s)
    return s


def calls():
    u = melodist.util
    c = {}
    for m in ('sine_min_max', 'sine_mean', 'mean_course_min_max', 'mean_course_mean'):
        for t, night in ((('sun_loc', False), ('sun_loc_shift', True)) if m.startswith('sine') else
                         (('fix', False),)):
            c['temperature %s %s' % (m, t)] = lambda x, m=m, t=t, night=night: melodist.disaggregate_temperature(
                x.daily, method=m, min_max_time=t, mod_nighttime=night, max_delta=x.stats.temp.max_delta,
                mean_course=x.stats.temp.mean_course, sun_times=x.sun)
    for m in ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max',
              'month_hour_precip_mean'):
        c['humidity %s' % m] = lambda x, m=m: melodist.disaggregate_humidity(
            x.daily, method=m, temp=x.temp, preserve_daily_mean=True, **x.stats.hum)
        c['humidity %s raw' % m] = lambda x, m=m: melodist.disaggregate_humidity(
            x.daily, method=m, temp=x.temp, **x.stats.hum)
    for m in ('equal', 'cosine', 'random'):
        c['wind %s' % m] = lambda x, m=m: melodist.disaggregate_wind(x.wind, method=m, **x.stats.wind)
    for m in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
        c['radiation %s' % m] = lambda x, m=m: melodist.disaggregate_radiation(
            x.daily, sun_times=x.sun, pot_rad=x.pot, method=m, angstr_a=x.stats.glob.angstroem.a,
            angstr_b=x.stats.glob.angstroem.b, bristcamp_a=x.stats.glob.bristcamp.a,
            bristcamp_c=x.stats.glob.bristcamp.c, mean_course=x.stats.glob.mean_course)
    c['precip equal'] = lambda x: melodist.disagg_prec(x.daily, method='equal')
    c['precip cascade'] = lambda x: melodist.disagg_prec(x.precip, method='cascade',
                                                         cascade_options=x.casc)
    c['precip cascade levels'] = lambda x: melodist.disagg_prec_cascade(x.precip, x.levels)
    c['precip cascade 5min'] = lambda x: melodist.disagg_prec_cascade(x.precip, x.casc9, hourly=False)
    c['precip cascade test'] = lambda x: melodist.disagg_prec_cascade(x.precip, x.casc, test=True)
    for m in ('pot_rad_via_ssd', 'pot_rad_via_bc'):
        c['radiation %s coefficients' % m] = lambda x, m=m: melodist.disaggregate_radiation(
            x.daily, sun_times=x.sun, pot_rad=x.pot, method=m, angstr_a=x.coef[0], angstr_b=x.coef[1],
            bristcamp_a=x.coef[2], bristcamp_c=x.coef[3])
    c['shift of other'] = lambda x: melodist.get_shift_by_data(x.other, 8.9, 51.3, 1)
    c['mean course of other'] = lambda x: u.calculate_mean_daily_course_by_month(x.other)
    c['precip master zero'] = lambda x: melodist.precip_master_station(x.precip, x.master, 'zero')
    c['precip master'] = lambda x: melodist.precip_master_station(x.precip, x.master, 'uniform')
    c['aggregate'] = lambda x: melodist.aggregate_precipitation(x.hourly.fillna(0.0))
    c['aggregate fine'] = lambda x: melodist.aggregate_precipitation(x.fine)
    c['build'] = lambda x: melodist.build_casc(x.hourly)
    c['build seasons'] = lambda x: melodist.build_casc(x.hourly, months=[np.array([2, 3])], avg_stats=False)
    c['subset'] = lambda x: melodist.seasonal_subset(x.daily, [3])
    c['sun times'] = lambda x: u.get_sun_times(x.daily.index, 8.9, 51.3, 1)
    c['potential radiation'] = lambda x: melodist.potential_radiation(x.temp.index, 8.9, 51.3, 1, split=True)
    c['hourly index'] = lambda x: u.hourly_index(x.daily.index)
    c['distribute'] = lambda x: melodist.distribute_equally(x.precip, divide=True)
    c['vapour pressure'] = lambda x: u.vapor_pressure(x.series['temp'], x.series['hum'])
    c['dew point'] = lambda x: u.dewpoint_temperature(x.series['temp'], x.series['hum'])
    c['gaps'] = lambda x: u.detect_gaps(x.hourly, 3600, verbose=False)
    c['drop'] = lambda x: u.drop_incomplete_days(x.hourly.iloc[3:-2])
    c['drop shift'] = lambda x: u.drop_incomplete_days(x.hourly, shift=8)
    c['daily'] = lambda x: u.daily_from_hourly(x.hourly)
    c['mean course'] = lambda x: u.calculate_mean_daily_course_by_month(x.series['temp'], normalize=True)
    c['mean course raw'] = lambda x: u.calculate_mean_daily_course_by_month(x.series['glob'])
    c['shift'] = lambda x: melodist.get_shift_by_data(x.series['temp'], 8.9, 51.3, 1)
    c['dew point regression'] = lambda x: melodist.calculate_dewpoint_regression(x.hourly)
    c['humidity means'] = lambda x: melodist.calculate_month_hour_precip_mean(x.hourly)
    c['wind fit'] = lambda x: melodist.fit_cosine_function(x.series['wind'])
    c['bristow campbell'] = lambda x: melodist.bristow_campbell(
        x.daily.tmin, x.daily.tmax, x.pot.resample('D').mean(), x.stats.glob.bristcamp.a,
        x.stats.glob.bristcamp.c)
    c['angstroem'] = lambda x: melodist.angstroem(
        x.daily.ssd, x.sun.daylength, x.pot.resample('D').mean().loc[x.daily.index],
        x.stats.glob.angstroem.a, x.stats.glob.angstroem.b)
    c['calibrate precip'] = lambda x: statistics_of(x, lambda s: s.calc_precipitation_stats(
        months=[np.array([2, 3])], avg_stats=False))
    c['calibrate precip seasons'] = lambda x: statistics_of(x, lambda s: s.calc_precipitation_stats(months=x.months))
    c['build months'] = lambda x: melodist.build_casc(x.hourly, months=x.months)
    c['calibrate wind'] = lambda x: statistics_of(x, lambda s: s.calc_wind_stats())
    c['calibrate humidity'] = lambda x: statistics_of(x, lambda s: s.calc_humidity_stats())
    c['calibrate temperature'] = lambda x: statistics_of(x, lambda s: s.calc_temperature_stats())
    c['calibrate radiation'] = lambda x: statistics_of(x, lambda s: s.calc_radiation_stats(
        data_daily=x.daily, day_length=x.sun.daylength))
    c['to json'] = lambda x: x.stats.to_json()
    c['write smet daily'] = lambda x: to_file(lambda n: melodist.write_smet(
        n, x.daily[['tmin', 'tmax', 'precip', 'glob']], {}, mode='d'))
    c['write smet hourly'] = lambda x: to_file(lambda n: melodist.write_smet(n, x.hourly, {}, mode='h'))
    c['interpolate'] = lambda x: melodist.Station(data_daily=x.daily).interpolate(x.hours)
    c['station'] = station_run
    return c


def station_run(x):
    st = melodist.Station(lon=8.9, lat=51.3, timezone=1, data_daily=x.daily)
    st.statistics = x.stats
    st.disaggregate_temperature(min_max_time='sun_loc_shift')
    st.disaggregate_humidity(method='linear_dewpoint_variation', preserve_daily_mean=True)
    st.disaggregate_wind('cosine')
    st.disaggregate_precipitation('cascade')
    st.disaggregate_radiation('pot_rad_via_bc')
    return st


CALLS = calls()


def call(name, x):
    with scripted_random(cyc([0.4, 0.8, 0.1])):
        return CALLS[name](x)


def scen_inputs(ctx):
    name = ctx.pick(sorted(CALLS), 'operation')
    form = ctx.pick(FORMS, 'inputs')
    x = inputs(form)
    before = {k: snap(v) for k, v in vars(x).items()}
    try:
        r = call(name, x)
    except Exception:
        if form in ('complete', 'named'):
            raise
        r = None        # some functions do not accept absent days; the inputs must still be unchanged
    for k, v in vars(x).items():
        d = where(before[k], snap(v))
        ctx.check(d is None, '%s modified its input %s (%s inputs) %s', name, k, form, d)
        ctx.work += 1
    if r is not None and name.startswith('calibrate'):
        d = where(snap(melodist.StationStatistics(data=x.hourly).data), snap(r.data))
        ctx.check(d is None, '%s modified the observations of the statistics (%s inputs) %s', name, form, d)
    s = snap(r)
    # the same again: identical result, first one unchanged
    if r is not None:
        again = call(name, x)
        d = where(s, snap(again))
        ctx.check(d is None, 'repeating %s gives another result %s', name, d)
        ctx.check(where(s, snap(r)) is None, 'repeating %s changed its first result', name)
    ctx.observe(repr(s))


SECOND = ['temperature sine_min_max sun_loc', 'humidity min_max', 'humidity equal', 'wind equal', 'precip equal',
          'precip cascade', 'radiation mean_course', 'radiation pot_rad_via_bc', 'aggregate', 'build',
          'daily', 'mean course', 'humidity means', 'calibrate humidity', 'calibrate radiation', 'to json',
          'write smet daily', 'write smet hourly', 'station', 'drop', 'distribute', 'sun times', 'shift']


def scen_pairs(ctx):
    """The result of an operation survives every other operation on the same inputs."""
    a = ctx.pick(sorted(CALLS), 'first')
    seconds = sorted(CALLS) if ctx.tier == 'thorough' else SECOND
    x = inputs('complete')
    ra = call(a, x)
    s = snap(ra)
    ctx.observe(repr(s))
    for b in seconds:
        rb = call(b, x)
        d = where(s, snap(ra))
        ctx.check(d is None, '%s changed the result of %s %s', b, a, d)
        # writing into a result changes neither inputs nor later results
        scribble(rb)
        d = where(s, snap(ra))
        ctx.check(d is None, 'writing into the result of %s changed the result of %s', b, a)
        if b == a and a != 'station':
            break
        if b in ('station', ) or a == 'station':
            x = inputs('complete')
    ctx.cover(ordered_pairs=len(seconds))


# another number every time: a result which was written into before must not look unchanged
NUMBERS = itertools.count()


def scribble(r, v=None):
    if v is None:
        v = -7.5 - next(NUMBERS)
    if isinstance(r, pd.DataFrame):
        for k in range(r.shape[1]):
            if r.dtypes.iloc[k].kind == 'f':
                r.iloc[:, k] = v
    elif isinstance(r, pd.Series):
        if r.dtype.kind == 'f':
            r.iloc[:] = v
    elif isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind == 'f':
            r[...] = v
    elif isinstance(r, (list, tuple)):
        for y in r:
            scribble(y, v)
    elif type(r).__name__ == 'CascadeStatistics':
        for y in vars(r).values():
            scribble(y, v)


def scen_results(ctx):
    """Writing into a result does not change the inputs or a repetition."""
    name = ctx.pick(sorted(set(CALLS) - {'station', 'subset'}), 'operation')
    x = inputs('complete')
    before = {k: snap(v) for k, v in vars(x).items()}
    r = call(name, x)
    s = snap(r)
    scribble(r)
    for k, v in vars(x).items():
        d = where(before[k], snap(v))
        ctx.check(d is None, 'writing into the result of %s changed its input %s %s', name, k, d)
    d = where(s, snap(call(name, x)))
    ctx.check(d is None, 'writing into the result of %s changed later results %s', name, d)
    ctx.observe(repr(s))


def scen_copies(ctx):
    """A station and its statistics do not see later changes of the tables assigned."""
    how = ctx.pick(['constructor', 'assignment'], 'how')
    form = ctx.pick(FORMS, 'inputs')
    change = ctx.pick(['values', 'column', 'rows', 'index name'], 'change')
    op = ctx.pick(sorted(n for n in fix.OPS if 'mean_course' in n or n.split()[1] in
                         ('equal', 'cascade', 'pot_rad', 'sine', 'min_max', 'minimal')), 'operation')
    x = inputs(form)
    ref = inputs(form)

    def make(y):
        if how == 'constructor':
            st = melodist.Station(lon=8.9, lat=51.3, timezone=1, data_daily=y.daily)
            s = melodist.StationStatistics(data=y.hourly, lon=8.9, lat=51.3, timezone=1)
        else:
            st = melodist.Station(lon=8.9, lat=51.3, timezone=1)
            st.data_daily = y.daily
            s = melodist.StationStatistics(lon=8.9, lat=51.3, timezone=1)
            s.data = y.hourly
        fix.fill(s)
        st.statistics = s
        if op.startswith('hum'):
            st.data_disagg.temp = y.temp.reindex(st.data_disagg.index)
        return st

    st, want = make(x), make(ref)
    s0 = snap(st)
    for df in (x.daily, x.hourly):
        if change == 'values':
            df.iloc[1:3] = 300.0
        elif change == 'column':
            df['precip'] = 99.0
        elif change == 'rows':
            df.drop(index=df.index[:2], inplace=True)
        else:
            df.index.name = 'other'
    d = where(s0, snap(st))
    ctx.check(d is None, 'changing (%s) the table given to the station changed the station %s', change, d)
    for y in (st, want):
        with scripted_random(cyc([0.4])):
            fix.OPS[op][1](y)
    d = where(snap(want.data_disagg), snap(st.data_disagg))
    ctx.check(d is None, '%s sees later changes of the daily table %s', op, d)
    # daily input and calibration data of the station are not changed by the run
    ctx.check(where(snap(want.statistics), snap(st.statistics)) is None, 'statistics differ after %s', op)
    ctx.check(where(s0[1], snap(st.data_daily)) is None, '%s changed the daily data of the station', op)
    ctx.check(where(s0[4], snap(st.sun_times)) is None, '%s changed the sun times of the station', op)
    ctx.check(where(s0[3], snap(st.statistics)) is None, '%s changed the statistics of the station', op)
    ctx.observe(repr(snap(st.data_disagg)))


def scen_stations(ctx):
    """Two stations built from the same table share nothing."""
    first = ctx.pick(['daily', 'results', 'statistics', 'location', 'run', 'default statistics',
                      'sun times'], 'change')
    x = inputs('complete')
    a = melodist.Station(lon=8.9, lat=51.3, timezone=1, data_daily=x.daily)
    b = melodist.Station(lon=8.9, lat=51.3, timezone=1, data_daily=x.daily)
    a.statistics.data = x.hourly
    b.statistics.data = x.hourly
    s = snap(b)
    if first == 'daily':
        a.data_daily.iloc[:] = 250.0
    elif first == 'results':
        a.data_disagg.iloc[:] = 1.0
    elif first == 'statistics':
        fix.fill(a.statistics)
        a.statistics.data.iloc[:] = 5.0
    elif first == 'sun times':
        scribble(a.sun_times)
    elif first == 'location':
        a.lon, a.lat, a.timezone = 100.0, -10.0, 5
    elif first == 'run':
        fix.fill(a.statistics)
        for op in sorted(fix.OPS):
            with scripted_random(cyc([0.4])):
                fix.OPS[op][1](a)
    else:
        a.statistics.glob.angstroem.loc[3] = 0.1, 0.2
        a.statistics.glob.bristcamp.loc[3] = 0.1, 0.2
        a.statistics.wind.update(a=1.0)
    d = where(s, snap(b))
    ctx.check(d is None, 'changing %s of one station changed the other %s', first, d)
    c = melodist.Station(lon=8.9, lat=51.3, timezone=1, data_daily=x.daily)
    c.statistics.data = x.hourly
    d = where(s, snap(c))
    ctx.check(d is None, 'changing %s of one station changed stations created later %s', first, d)
    ctx.observe(repr(s))


def scen_held(ctx):
    """Tables obtained from a station or its statistics are not changed by what happens later."""
    later = ctx.pick(['same days', 'other values', 'other days', 'place', 'radiation', 'all statistics', 'new statistics',
                      'runs'], 'later')
    how = ctx.pick(['all', 'seasonal'], 'calibration') if later == 'radiation' else 'all'
    start = '2016-02-26' if later != 'radiation' else '2015-06-01'
    n = 8 if later != 'radiation' else 366
    daily, hourly = fix.daily(start, n), fix.hourly(start, n)
    if n > 8:
        daily['ssd'] = 2.0 + np.arange(n) % 5
    st = fix.station(daily, temp=fix.hourly_temp(daily))
    st.statistics.data = hourly
    st.disaggregate_precipitation()
    held = dict(daily=st.data_daily, results=st.data_disagg, sun=st.sun_times, data=st.statistics.data,
                angstroem=st.statistics.glob.angstroem, bristcamp=st.statistics.glob.bristcamp,
                course=st.statistics.glob.mean_course, shift=st.statistics.temp.max_delta,
                tcourse=st.statistics.temp.mean_course, means=st.statistics.hum.month_hour_precip_mean,
                cascade=st.statistics.precip.stats)
    if later == 'runs':
        held.pop('results')      # the station's own table of results is filled by its disaggregations
        held['hours'] = st.data_disagg.precip
    before = {k: snap(v) for k, v in held.items()}
    if later == 'same days':
        st.data_daily = daily
    elif later == 'other values':
        st.data_daily = fix.daily(start, n, 1)
    elif later == 'other days':
        st.data_daily = fix.daily('2016-03-05', n, 1)
    elif later == 'place':
        st.lon, st.lat, st.timezone = 100.0, -10.0, 5
    elif later == 'radiation':
        st.statistics.calc_radiation_stats(data_daily=daily, day_length=st.sun_times.daylength, how=how)
    elif later == 'all statistics':
        s = st.statistics
        for call_ in (s.calc_precipitation_stats, s.calc_wind_stats, s.calc_humidity_stats, s.calc_temperature_stats,
                      s.calc_radiation_stats):
            call_()
    elif later == 'new statistics':
        st.statistics = fix.statistics(1)
        st.statistics.data = fix.hourly(start, n, 1)
    else:
        for op in sorted(fix.OPS):
            with scripted_random(cyc([0.4])):
                fix.OPS[op][1](st)
    for k, v in held.items():
        d = where(before[k], snap(v))
        ctx.check(d is None, '%s changed the table %s obtained before %s', later, k, d)
    ctx.observe(repr(snap(st)))


def scenarios(tier):
    return [('inputs', scen_inputs), ('results', scen_results), ('copies', scen_copies),
            ('stations', scen_stations), ('pairs', scen_pairs), ('held', scen_held)]
