"""Input domain of the humidity checks."""
import numpy as np
import pandas as pd

from .common import NAN, days, hours_of

DAYS = [
    dict(tmin=278.0, tmax=290.0, hum=70.0, hum_min=45.0, hum_max=95.0, precip=0.0),
    dict(tmin=265.0, tmax=275.5, hum=88.0, hum_min=70.0, hum_max=99.0, precip=1.5),
    dict(tmin=273.0, tmax=273.3, hum=99.5, hum_min=97.0, hum_max=100.0, precip=20.0),
    dict(tmin=285.0, tmax=303.0, hum=12.0, hum_min=2.0, hum_max=30.0, precip=0.0),
    dict(tmin=250.0, tmax=262.0, hum=NAN, hum_min=40.0, hum_max=90.0, precip=NAN),
]
COURSES = {
    'cosine': 0.5 + 0.5 * np.cos((np.arange(24) - 14) * np.pi / 12),
    'ramp': np.arange(24) / 23.0,
    'beyond': 1.6 * np.arange(24)[::-1] / 23.0 - 0.3,     # leaves the range of tmin .. tmax
}


def build(kinds, start, course):
    index = days(start, len(kinds))
    recs = [dict(DAYS[k], date=d) for k, d in zip(kinds, index)]
    c = COURSES[course]
    temp = []
    for r in recs:
        temp += list(r['tmin'] + c * (r['tmax'] - r['tmin']))
    df = pd.DataFrame(recs, index=index).drop(columns='date').astype(float)
    return recs, df, pd.Series(temp, index=hours_of(index))


def table(months=range(1, 13)):
    """Categorical means, different for each month, hour and wetness."""
    keys = [(m, h, w) for m in months for h in range(24) for w in (False, True)]
    s = pd.Series([20.0 + 2 * m + 0.5 * h + 15.0 * w for m, h, w in keys],
                  index=pd.MultiIndex.from_tuples(keys))
    return s.sort_index()


METHODS = ['equal', 'minimal', 'dewpoint_regression', 'linear_dewpoint_variation', 'min_max',
           'month_hour_precip_mean']
