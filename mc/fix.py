"""Daily and hourly series, statistics and operations shared by the station level checks."""
import numpy as np
import pandas as pd

from . import casc
from .common import days, hours_of
from .repo import melodist

VARS = ['temp', 'tmin', 'tmax', 'precip', 'glob', 'ssd', 'hum', 'hum_min', 'hum_max', 'wind']


def daily(start='2016-02-26', n=7, salt=0):
    """A daily table with all variables; every value differs from all others of its variable."""
    k = np.arange(n) + salt * 3
    tmin = 272.0 + 3.1 * np.sin(1.7 * k) + 0.13 * k
    tmax = tmin + 7.0 + 2.3 * np.cos(2.1 * k)
    hum = 68.0 + 9.0 * np.sin(1.1 * k + 1)
    df = pd.DataFrame(dict(
        temp=tmin + 0.45 * (tmax - tmin), tmin=tmin, tmax=tmax,
        precip=np.where(k % 5 == 3, 0.0, 2.5 + 1.75 * ((k * 7) % 6)),
        glob=120.0 + 11.0 * k, ssd=2.0 + (k % 4) * 0.7 + 0.05 * k, hum=hum,
        hum_min=hum - 21.0, hum_max=hum + 17.0, wind=1.5 + 0.4 * k), index=days(start, n))
    return df[VARS]


def hourly(start='2016-02-26', n=7, salt=0):
    """An hourly table with all variables (without noise, but not periodic)."""
    idx = hours_of(days(start, n))
    i = np.arange(len(idx)) + 5 * salt
    h = np.asarray(idx.hour)
    d = i // 24
    rain = ((i * i + 3 * i) % 11 == 0) & (d % 3 != 1)
    return pd.DataFrame(dict(
        temp=280.0 + 4.0 * np.cos((h - 14 - d % 3) * np.pi / 12) + 1.5 * np.sin(i / 17.0),
        precip=np.where(rain, 0.25 * (1 + i % 7), 0.0),
        glob=np.clip(np.sin((h - 5) / 14.0 * np.pi), 0, None) * (200 + 13 * (d % 5)) * ((h > 5) & (h < 19)),
        hum=70.0 - 14.0 * np.cos((h - 15) * np.pi / 12) + 3.0 * np.sin(i / 7.0),
        wind=(2.5 + 0.5 * (d % 4)) * (1.0 + 0.3 * np.cos((h - 13) * np.pi / 12)),
        ssd=np.where((h > 6) & (h < 18), (i * 7) % 61, 0.0)), index=idx)


def mean_course(salt=0):
    h = np.arange(24)
    return pd.DataFrame({m: 0.5 + 0.5 * np.cos((h - 13 - (m + salt) % 4) * np.pi / 12)
                         for m in range(1, 13)}, index=range(24))


def rad_course(salt=0):
    h = np.arange(24)
    return pd.DataFrame({m: np.clip(np.sin((h - 5) / 14.0 * np.pi), 0, None) * (200 + 10 * m + salt * 7)
                         * ((h > 5) & (h < 19)) for m in range(1, 13)}, index=range(24))


def hum_table(salt=0):
    keys = [(m, h, w) for m in range(1, 13) for h in range(24) for w in (False, True)]
    return pd.Series([20.0 + 2 * m + 0.5 * h + 15.0 * w + salt for m, h, w in keys],
                     index=pd.MultiIndex.from_tuples(keys)).sort_index()


def fill(s, salt=0):
    """Fills a StationStatistics object with every kind of statistics."""
    s.wind.update(a=0.2 + 0.05 * salt, b=0.95, t_shift=13.5 - salt)
    s.precip.update(months=[np.arange(12) + 1], stats=[casc.mixed([x + 0.3 * salt for x in casc.THR5])])
    s.hum.update(a0=40.0 - 2 * salt, a1=0.85, kr=12, month_hour_precip_mean=hum_table(salt))
    s.temp.update(max_delta=pd.Series([1.2 + 0.1 * m + 0.6 * salt for m in range(1, 13)], index=range(1, 13)),
                  mean_course=mean_course(salt))
    s.glob.update(angstroem=pd.DataFrame(dict(a=[0.2 + 0.01 * m + 0.02 * salt for m in range(1, 13)],
                                              b=[0.5 + 0.01 * m for m in range(1, 13)]), index=range(1, 13)),
                  bristcamp=pd.DataFrame(dict(a=[0.7 + 0.01 * m + 0.02 * salt for m in range(1, 13)],
                                              c=[2.0 + 0.02 * m for m in range(1, 13)]), index=range(1, 13)),
                  mean_course=rad_course(salt))
    return s


def statistics(salt=0):
    return fill(melodist.StationStatistics(), salt)


def station(df, lon=8.9, lat=51.3, tz=1, salt=0, temp=None):
    st = melodist.Station(lon=lon, lat=lat, timezone=tz, data_daily=df)
    fill(st.statistics, salt)
    if temp is not None:
        st.data_disagg.temp = temp.reindex(st.data_disagg.index)
    return st


def master(index):
    i = np.arange(len(index) * 24)
    return pd.Series(np.where(i % 5 == 0, 0.5 + (i % 3), 0.0), index=hours_of(index))


# method name -> (variable, call)
OPS = {}
for _m in ('sine_min_max', 'sine_mean', 'sine'):
    for _t in ('fix', 'sun_loc', 'sun_loc_shift'):
        OPS['temp %s %s' % (_m, _t)] = ('temp', lambda st, m=_m, t=_t: st.disaggregate_temperature(
            method=m, min_max_time=t))
    OPS['temp %s sun_loc nighttime' % _m] = ('temp', lambda st, m=_m: st.disaggregate_temperature(
        method=m, min_max_time='sun_loc', mod_nighttime=True))
for _m in ('mean_course_min_max', 'mean_course_mean'):
    OPS['temp %s' % _m] = ('temp', lambda st, m=_m: st.disaggregate_temperature(method=m))
for _m in ('equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max',
           'month_hour_precip_mean'):
    for _p in (False, True):
        OPS['hum %s%s' % (_m, ' mean' if _p else '')] = (
            'hum', lambda st, m=_m, p=_p: st.disaggregate_humidity(method=m, preserve_daily_mean=p))
for _m in ('equal', 'cosine', 'random'):
    OPS['wind %s' % _m] = ('wind', lambda st, m=_m: st.disaggregate_wind(method=m))
for _m in ('equal', 'cascade'):
    OPS['precip %s' % _m] = ('precip', lambda st, m=_m: st.disaggregate_precipitation(method=m))
OPS['precip masterstation'] = ('precip', lambda st: st.disaggregate_precipitation(
    method='masterstation', master_precip=master(st.data_daily.index)))
for _m in ('pot_rad', 'pot_rad_via_ssd', 'pot_rad_via_bc', 'mean_course'):
    OPS['glob %s' % _m] = ('glob', lambda st, m=_m: st.disaggregate_radiation(method=m))

RANDOM = ('wind random', 'precip cascade')


def hourly_temp(df):
    c = 0.5 + 0.5 * np.cos((np.arange(24) - 14) * np.pi / 12)
    v = df.tmin.to_numpy()[:, None] + c[None, :] * (df.tmax - df.tmin).to_numpy()[:, None]
    return pd.Series(v.ravel(), index=hours_of(df.index))
