"""C29: invalid requests are rejected and leave results untouched."""
import warnings

import numpy as np
import pandas as pd

from .. import casc, fix
from ..common import days, hours_of
from ..repo import melodist
from ..snap import snap, where

RULE = ('choice = history of valid operations, invalid request, second invalid request, following valid operation; '
        'complete state compared bit by bit around the invalid request and with a station that never saw it')
BOUNDS = dict(requests='every invalid request of the list alone after 4 histories, all ordered pairs after none',
              following='every valid operation after representatives of each kind')
ASSUMPTIONS = ['options that the selected method does not use are not part of the request',
               'parameters of a wrong Python type other than the listed ones are out of scope']


# ---- invalid requests: name -> (preparation, request); the preparation is a legal setting -------
def nothing(st):
    pass


BAD = {}


def bad(name, request, prepare=nothing):
    BAD[name] = (prepare, request)


UNKNOWN = ['', 'Equal', 'equal ', 'nonsense', None]
for _m in UNKNOWN:
    bad('temperature method %r' % (_m,), lambda st, m=_m: st.disaggregate_temperature(method=m))
    bad('humidity method %r' % (_m,), lambda st, m=_m: st.disaggregate_humidity(method=m))
    bad('wind method %r' % (_m,), lambda st, m=_m: st.disaggregate_wind(method=m))
    bad('precipitation method %r' % (_m,), lambda st, m=_m: st.disaggregate_precipitation(method=m))
    bad('radiation method %r' % (_m,), lambda st, m=_m: st.disaggregate_radiation(method=m))
for _m in ('mean_course', 'sine_max', 'min_max', 'cosine'):
    bad('temperature method %s' % _m, lambda st, m=_m: st.disaggregate_temperature(method=m))
for _m in ('mean', 'dewpoint', 'minmax', 'random'):
    bad('humidity method %s' % _m, lambda st, m=_m: st.disaggregate_humidity(method=m))
for _m in ('cos', 'cascade', 'uniform'):
    bad('wind method %s' % _m, lambda st, m=_m: st.disaggregate_wind(method=m))
for _m in ('master', 'casc', 'uniform', 'random'):
    bad('precipitation method %s' % _m, lambda st, m=_m: st.disaggregate_precipitation(method=m))
for _m in ('potrad', 'pot_rad_via_temp', 'equal', 'ssd'):
    bad('radiation method %s' % _m, lambda st, m=_m: st.disaggregate_radiation(method=m))
for _t in ('sunloc', '', 'fixed', None, 'sun_loc_shifted'):
    for _m in ('sine_min_max', 'sine_mean', 'sine'):
        bad('%s min_max_time %r' % (_m, _t),
            lambda st, m=_m, t=_t: st.disaggregate_temperature(method=m, min_max_time=t))


def without(group, **kw):
    def prepare(st):
        getattr(st.statistics, group).update(**kw)
    return prepare


def drop(*columns):
    def prepare(st):
        hourly = st.data_disagg.copy()
        st.data_daily = st.data_daily.drop(columns=list(columns), errors='ignore')
        for c in hourly:
            st.data_disagg[c] = hourly[c]
    return prepare


for _k in ('a0', 'a1'):
    for _m in ('dewpoint_regression', 'linear_dewpoint_variation'):
        bad('%s without %s' % (_m, _k), lambda st, m=_m: st.disaggregate_humidity(method=m),
            without('hum', **{_k: None}))
for _kr in (None, 0, 7, 24, -12, 6.5):
    bad('kr %r' % (_kr,), lambda st: st.disaggregate_humidity(method='linear_dewpoint_variation'),
        without('hum', kr=_kr))
for _p in (False, True):
    bad('humidity table missing, preserve %s' % _p,
        lambda st, p=_p: st.disaggregate_humidity(method='month_hour_precip_mean', preserve_daily_mean=p),
        without('hum', month_hour_precip_mean=None))
for _k in ('a', 'b', 't_shift'):
    bad('cosine wind without %s' % _k, lambda st: st.disaggregate_wind(method='cosine'), without('wind', **{_k: None}))
for _m in ('mean_course_min_max', 'mean_course_mean'):
    bad('%s without course' % _m, lambda st, m=_m: st.disaggregate_temperature(method=m),
        without('temp', mean_course=None))
for _m in ('sine_min_max', 'sine_mean'):
    bad('%s without shift' % _m,
        lambda st, m=_m: st.disaggregate_temperature(method=m, min_max_time='sun_loc_shift'),
        without('temp', max_delta=None))
bad('radiation without course', lambda st: st.disaggregate_radiation(method='mean_course'),
    without('glob', mean_course=None))
for _c in ('hum_min', 'hum_max'):
    bad('min_max without %s' % _c, lambda st: st.disaggregate_humidity(method='min_max'), drop(_c))
for _c, _m in (('ssd', 'pot_rad_via_ssd'), ('tmin', 'pot_rad_via_bc'), ('tmax', 'pot_rad_via_bc'),
               ('glob', 'pot_rad'), ('glob', 'mean_course')):
    bad('%s without %s' % (_m, _c), lambda st, m=_m: st.disaggregate_radiation(method=m), drop(_c))
for _c in ('tmin', 'tmax'):
    for _m in ('sine_min_max', 'sine_mean', 'mean_course_min_max', 'mean_course_mean'):
        bad('%s without %s' % (_m, _c), lambda st, m=_m: st.disaggregate_temperature(method=m), drop(_c))
for _m in ('sine_mean', 'mean_course_mean'):
    bad('%s without mean' % _m, lambda st, m=_m: st.disaggregate_temperature(method=m), drop('temp'))
bad('wind without wind', lambda st: st.disaggregate_wind(), drop('wind'))
bad('humidity without humidity', lambda st: st.disaggregate_humidity(), drop('hum'))
bad('preserved mean without humidity',
    lambda st: st.disaggregate_humidity(method='minimal', preserve_daily_mean=True), drop('hum'))
for _m in ('equal', 'cascade'):
    bad('%s without precipitation' % _m, lambda st, m=_m: st.disaggregate_precipitation(method=m), drop('precip'))
bad('master station without master', lambda st: st.disaggregate_precipitation(method='masterstation'))
bad('cascade without statistics', lambda st: st.disaggregate_precipitation(method='cascade'),
    without('precip', months=None, stats=None))


def cascade_stats(stats, months=None):
    return without('precip', months=months or [list(range(1, 13))], stats=stats)


for _n in (0, 1, 4, 6, 9):
    bad('cascade statistics of %d levels' % _n, lambda st: st.disaggregate_precipitation(method='cascade'),
        cascade_stats([[casc.mixed([1.0]) for _ in range(_n)]]))
bad('second season with 4 levels', lambda st: st.disaggregate_precipitation(method='cascade'),
    cascade_stats([casc.mixed(casc.THR5), [casc.mixed([1.0]) for _ in range(4)]],
                  [[1, 2], [3, 4, 5, 6, 7, 8, 9, 10, 11, 12]]))
for _w in ('text', 5, {'p01': 1}, (casc.mixed([1.0]),) * 5):
    bad('cascade statistics %s' % type(_w).__name__, lambda st: st.disaggregate_precipitation(method='cascade'),
        cascade_stats([_w]))
bad('cascade statistics None', lambda st: st.disaggregate_precipitation(method='cascade'), cascade_stats([None]))


# daily data
def set_daily(change):
    def request(st):
        st.data_daily = change(fix.daily('2016-03-01', 5, 2))
    return request


def celsius(var):
    def change(df):
        df[var] = df[var] - 273.15
        return df
    return change


def one_value(var, k):
    def change(df):
        df.iloc[k, df.columns.get_loc(var)] = 199.0
        return df
    return change


for _v in ('tmin', 'tmax', 'temp'):
    bad('daily %s in degrees Celsius' % _v, set_daily(celsius(_v)))
    for _k in (0, 2, 4):
        bad('daily %s of day %d below 200 K' % (_v, _k), set_daily(one_value(_v, _k)))
for _v in ('tmin', 'tmax', 'temp'):
    bad('%s of a single day in degrees Celsius' % _v, set_daily(lambda df, v=_v: celsius(v)(df.iloc[2:3].copy())))
bad('daily tmean in degrees Celsius', set_daily(lambda df: celsius('tmean')(df.rename(columns=dict(temp='tmean')))))
bad('a Series as daily data', set_daily(lambda df: df.tmin))
bad('a dict as daily data', set_daily(lambda df: dict(df)))
bad('an array as daily data', set_daily(lambda df: df.to_numpy()))
bad('no daily data', set_daily(lambda df: None))
bad('numbered days', set_daily(lambda df: df.reset_index(drop=True)))
bad('days as text', set_daily(lambda df: df.set_axis([str(x.date()) for x in df.index])))
bad('hourly data as daily data', set_daily(lambda df: fix.hourly('2016-03-01', 2)))
bad('days at noon', set_daily(lambda df: df.set_axis(df.index + pd.Timedelta(hours=12))))
bad('reversed days', set_daily(lambda df: df.iloc[::-1]))
bad('unsorted days', set_daily(lambda df: df.iloc[[0, 2, 1, 3, 4]]))
bad('unsorted days of two years', set_daily(lambda df: fix.daily('2015-01-01', 740).iloc[
    [*range(400), 401, 400, *range(402, 740)]]))
bad('reversed days of two years', set_daily(lambda df: fix.daily('2015-01-01', 740).iloc[::-1]))
bad('last day first', set_daily(lambda df: df.iloc[[4, 0, 1, 2, 3]]))


# statistics
def set_stat_data(change):
    def request(st):
        st.statistics.data = change(fix.hourly('2016-03-01', 3))
    return request


for _name, _w in (('None', None), ('a dict', {}), ('a class', melodist.StationStatistics), ('a Station',
                                                                                       melodist.Station())):
    def _req(st, w=_w):
        st.statistics = w
    bad('statistics %s' % _name, _req)
bad('daily data for statistics', set_stat_data(lambda df: fix.daily()))
bad('five-minute data for statistics', set_stat_data(
    lambda df: df.set_axis(pd.date_range('2016-03-01', periods=len(df), freq='5min'))))
bad('numbered hours for statistics', set_stat_data(lambda df: df.reset_index(drop=True)))
bad('a Series for statistics', set_stat_data(lambda df: df.temp))
bad('a dict for statistics', set_stat_data(lambda df: dict(df)))
bad('None for statistics', set_stat_data(lambda df: None))


def with_data(*missing):
    def prepare(st):
        st.statistics.data = fix.hourly('2016-02-20', 30).drop(columns=list(missing))
    return prepare


def no_data(st):
    st.statistics = fix.statistics()


for _p in (150, -1):
    for _a in (True, False):
        bad('percentile %d, averaged %s' % (_p, _a), lambda st, p=_p, a=_a: st.statistics.calc_precipitation_stats(
            months=[[1, 2, 3]], avg_stats=a, percentile=p), with_data())
for _c in ('precip', 'hum', 'temp'):
    bad('humidity statistics without %s' % _c, lambda st: st.statistics.calc_humidity_stats(), with_data(_c))
bad('temperature statistics without temp', lambda st: st.statistics.calc_temperature_stats(), with_data('temp'))
bad('wind statistics without wind', lambda st: st.statistics.calc_wind_stats(), with_data('wind'))
bad('precipitation statistics without precip', lambda st: st.statistics.calc_precipitation_stats(), with_data('precip'))
bad('radiation statistics without glob', lambda st: st.statistics.calc_radiation_stats(), with_data('glob'))
for _h in ('annual', '', None, 'Monthly', 'season'):
    bad('radiation statistics how=%r' % (_h,), lambda st, h=_h: st.statistics.calc_radiation_stats(
        data_daily=st.data_daily, day_length=st.sun_times.daylength, how=h), with_data())
    bad('radiation course how=%r' % (_h,), lambda st, h=_h: st.statistics.calc_radiation_stats(how=h), with_data())
for _n in ('precipitation', 'humidity', 'temperature', 'wind', 'radiation'):
    bad('%s statistics without data' % _n, lambda st, n=_n: getattr(st.statistics, 'calc_%s_stats' % n)(),
        no_data)

NAMES = sorted(BAD)

HISTORY = [
    [],
    ['temp sine_min_max fix'],
    ['temp sine_min_max fix', 'hum minimal', 'wind equal', 'precip equal', 'glob pot_rad'],
    ['temp mean_course_mean', 'hum equal', 'wind random', 'precip cascade', 'glob pot_rad_via_bc'],
]


def operate(st, name):
    np.random.seed(7)
    fix.OPS[name][1](st)


def reject(ctx, st, name, request):
    """Performs the request, which must raise and leave everything as it was."""
    before = snap(st)
    daily, hourly = st.data_daily, st.data_disagg
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            request(st)
    except Exception as e:  # noqa: any error is a rejection
        ctx.cover(rejections=1)
        ctx.observe(name, type(e).__name__)
    else:
        ctx.fail('accepted: %s' % name)
    d = where(before, snap(st))
    ctx.check(d is None, '%s: rejected, but the station changed: %s', name, d)
    ctx.check(st.data_daily is daily and st.data_disagg is hourly, '%s: tables replaced', name)


def start(history):
    st = fix.station(fix.daily('2016-02-26', 6))
    for h in history:
        operate(st, h)
    return st


def scen_single(ctx):
    """One invalid request after different histories; the history still works afterwards."""
    name = NAMES[ctx.choose(len(NAMES), 'request')]
    history = HISTORY[ctx.choose(len(HISTORY), 'history')]
    prepare, request = BAD[name]
    st = start(history)
    prepare(st)
    reject(ctx, st, name, request)
    reject(ctx, st, name, request)


def pair_scenario(stride):
    def scen_pairs(ctx):
        """Two invalid requests in a row."""
        first = NAMES[ctx.choose(len(NAMES), 'first request')]
        group = ctx.choose(4, 'group of second requests')
        todo = NAMES[group::4][::stride]
        for second in todo:
            st = start([])
            st.data_disagg['temp'] = fix.hourly_temp(st.data_daily)
            for n in (first, second):
                BAD[n][0](st)
                reject(ctx, st, n, BAD[n][1])
    return scen_pairs


# valid operations remain available: each is compared with a station that never saw the request
PROBE = ['temperature method None', 'temperature method mean_course', 'sine min_max_time None', 'humidity method mean',
         'wind method cos', 'precipitation method casc', 'radiation method ssd', 'daily tmin in degrees Celsius',
         'unsorted days', 'a Series as daily data', 'statistics None', 'daily data for statistics',
         'master station without master', 'temperature statistics without data', 'radiation course how=None']


def scen_after(ctx):
    """Every valid operation after an invalid request."""
    name = ctx.pick(PROBE, 'request')
    op = ctx.pick(sorted(fix.OPS), 'operation')
    a, b = start(HISTORY[2]), start(HISTORY[2])
    reject(ctx, a, name, BAD[name][1])
    operate(a, op)
    operate(b, op)
    d = where(snap(b), snap(a))
    ctx.check(d is None, '%s after %s differs: %s', op, name, d)
    ctx.observe(a.data_disagg)


NEEDS = {
    'temp sine_min_max': ['tmin', 'tmax'], 'temp sine_mean': ['tmin', 'tmax', 'temp'], 'temp sine ': ['tmin', 'tmax'],
    'temp mean_course_min_max': ['tmin', 'tmax'], 'temp mean_course_mean': ['tmin', 'tmax', 'temp'],
    'hum equal': ['hum'], 'hum minimal': ['tmin'], 'hum dewpoint_regression': ['tmin'],
    'hum linear_dewpoint_variation': ['tmin'], 'hum min_max': ['hum_min', 'hum_max', 'tmin', 'tmax'],
    'hum month_hour_precip_mean': ['precip'], 'wind': ['wind'], 'precip': ['precip'], 'glob pot_rad_via_ssd': ['ssd'],
    'glob pot_rad_via_bc': ['tmin', 'tmax'], 'glob pot_rad': ['glob'], 'glob mean_course': ['glob'],
}


def needs(op):
    key = max((k for k in NEEDS if op.startswith(k)), key=len)
    return NEEDS[key] + (['hum'] if op.endswith(' mean') and op.startswith('hum') else [])


def scen_minimal(ctx):
    """Valid requests are accepted: only the variables the method uses are present."""
    op = ctx.pick(sorted(fix.OPS), 'operation')
    kind = ctx.choose(4, 'time axis')
    df = fix.daily('2016-02-26', 6)
    if kind == 1:
        df = df.set_axis(pd.DatetimeIndex(list(df.index)))        # no frequency
    elif kind == 2:
        df = df.iloc[[0, 1, 3, 4, 5]]                              # one day absent
    elif kind == 3:
        df = df.iloc[:2]
    full = fix.station(df, temp=fix.hourly_temp(df))
    small = fix.station(df[sorted(set(needs(op)))], temp=fix.hourly_temp(df))
    if op.startswith('precip master'):
        m = fix.master(full.data_daily.index)
        for st in (full, small):
            st.disaggregate_precipitation(method='masterstation', master_precip=m)
    else:
        operate(full, op)
        operate(small, op)
    d = where(snap(full.data_disagg), snap(small.data_disagg))
    ctx.check(d is None, '%s: result depends on unused variables: %s', op, d)
    var = fix.OPS[op][0]
    ctx.check(small.data_disagg[var].notna().any(), '%s: no result', op)
    ctx.observe(small.data_disagg)


def direct_calls():
    d = fix.daily('2016-02-26', 6)
    t = fix.hourly_temp(d)
    st = fix.station(d)
    sun, course = st.sun_times, fix.mean_course()
    pot = melodist.potential_radiation(hours_of(d.index), 8.9, 51.3, 1)
    out = []
    for m in UNKNOWN + ['mean']:
        out += [
            (melodist.disaggregate_temperature, (d,), dict(method=m, sun_times=sun, mean_course=course)),
            (melodist.disaggregate_humidity, (d,), dict(method=m, temp=t, a0=0, a1=1, kr=12)),
            (melodist.disaggregate_wind, (d.wind,), dict(method=m, a=0.2, b=1.0, t_shift=12.0)),
            (melodist.disaggregate_radiation, (d,), dict(method=m, sun_times=sun, pot_rad=pot)),
            (melodist.disagg_prec, (d,), dict(method=m, cascade_options=casc.mixed(casc.THR5))),
        ]
    out += [
        (melodist.disaggregate_radiation, (d,), dict(method='pot_rad', sun_times=sun)),
        (melodist.disaggregate_radiation, (d,), dict(method='pot_rad_via_ssd', sun_times=sun)),
        (melodist.disaggregate_radiation, (d,), dict(method='mean_course', pot_rad=pot)),
        (melodist.disaggregate_wind, (d.wind,), dict(method='cosine')),
        (melodist.disaggregate_wind, (d.wind,), dict(method='cosine', a=0.2, b=1.0)),
        (melodist.disaggregate_wind, (d.wind,), dict(method='cosine', a=0.2, t_shift=1.0)),
        (melodist.disaggregate_wind, (d.wind,), dict(method='cosine', b=0.2, t_shift=1.0)),
        (melodist.disaggregate_humidity, (d,), dict(method='dewpoint_regression', temp=t)),
        (melodist.disaggregate_humidity, (d,), dict(method='dewpoint_regression', temp=t, a0=1.0)),
        (melodist.disaggregate_humidity, (d,), dict(method='dewpoint_regression', temp=t, a1=1.0)),
        (melodist.disaggregate_humidity, (d,), dict(method='linear_dewpoint_variation', temp=t, a0=1.0, a1=1.0)),
        (melodist.disaggregate_humidity, (d,), dict(method='linear_dewpoint_variation', temp=t, a0=1.0, a1=1.0, kr=8)),
        (melodist.disaggregate_humidity, (d,), dict(method='linear_dewpoint_variation', temp=t, kr=12)),
        (melodist.disaggregate_humidity, (d,), dict(method='month_hour_precip_mean', temp=t)),
        (melodist.disaggregate_humidity, (d.drop(columns='hum_min'),), dict(method='min_max', temp=t)),
        (melodist.disaggregate_humidity, (d.drop(columns='hum_max'),), dict(method='min_max', temp=t)),
        (melodist.disaggregate_temperature, (d,), dict(method='sine_mean', min_max_time='noon', sun_times=sun)),
        (melodist.disagg_prec, (d.precip,), dict(method='cascade')),
        (melodist.disagg_prec, (d.precip,), dict(method='masterstation')),
        (melodist.disagg_prec, (d.precip.iloc[:1],), dict(method='cascade', cascade_options=casc.mixed(casc.THR5))),
        (melodist.disagg_prec, (d.precip.iloc[:0],), dict(method='cascade', cascade_options=casc.mixed(casc.THR5))),
    ]
    for level, hourly, n in [(9, True, 4), (9, True, 9), (9, False, 5), (9, False, 10), (10, False, 9), (11, False, 10)]:
        out.append((melodist.disagg_prec_cascade, (d.precip, [casc.mixed([1.0]) for _ in range(n)]),
                    dict(hourly=hourly, level=level)))
    for w in ('text', None, 3, {}):
        out.append((melodist.disagg_prec_cascade, (d.precip, w), {}))
    good = dict(p01=np.zeros((2, 4)).tolist(), p10=np.zeros((2, 4)).tolist(), pxx=np.ones((2, 4)).tolist(),
                wxx=np.full((7, 2, 4), 1 / 7).tolist(), threshold=[1.0] * 5, percentile=50)
    for k in ('p01', 'p10', 'pxx'):
        for shape in ((4, 2), (2, 3), (8,), (1, 4), (2, 4, 1), (3, 4)):
            out.append((melodist.cascade.CascadeStatistics.from_dict,
                        (dict(good, **{k: np.zeros(shape).tolist()}),), {}))
        out.append((melodist.cascade.CascadeStatistics.from_dict,
                    ({x: v for x, v in good.items() if x != k},), {}))
    for shape in ((6, 2, 4), (8, 2, 4), (7, 4, 2), (7, 8), (2, 4)):
        out.append((melodist.cascade.CascadeStatistics.from_dict, (dict(good, wxx=np.zeros(shape).tolist()),), {}))
    p = fix.daily('2016-02-26', 6)
    out += [
        (melodist.util.vapor_pressure, (t, pd.Series([50.0, 60.0])), {}),
        (melodist.util.dewpoint_temperature, (t, pd.Series([50.0, 60.0])), {}),
        (melodist.bristow_campbell, (p.tmin, p.tmax.iloc[1:], pot.resample('D').mean(), 0.75, 2.4), {}),
        (melodist.Station, (), dict(data_daily=fix.hourly())),
        (melodist.Station, (), dict(data_daily=p - 273.15)),
        (melodist.StationStatistics, (), dict(data=p)),
        (melodist.StationStatistics, (fix.hourly().temp,), {}),
    ]
    return out


N_DIRECT = len(direct_calls())


def scen_direct(ctx):
    """Direct calls."""
    k = ctx.choose(N_DIRECT, 'call')
    fn, args, kw = direct_calls()[k]
    before = snap([list(args), kw])
    name = '%s(%s)' % (getattr(fn, '__name__', fn), ', '.join('%s=%.40r' % x for x in kw.items()
                                                             if isinstance(x[1], (str, int, float, type(None)))))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn(*args, **kw)
    except Exception as e:  # noqa
        ctx.observe(k, type(e).__name__)
    else:
        ctx.fail('accepted: %s (call %d)' % (name, k))
    d = where(before, snap([list(args), kw]))
    ctx.check(d is None, '%s: arguments changed: %s', name, d)


def scenarios(tier):
    return [('single', scen_single), ('pairs', pair_scenario(1 if tier == 'thorough' else 4)), ('after', scen_after),
            ('minimal', scen_minimal), ('direct', scen_direct)]
