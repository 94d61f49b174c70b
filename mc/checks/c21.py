"""C21: statistics survive export to JSON and import."""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from .. import casc, fix
from ..common import cyc, days, expect, hours_of, scripted_random
from ..repo import melodist

RULE = ('choice = subset of calculated parts, months covered, kind of cascade tables, place of content that '
        'cannot be exported; every stored value, order and disaggregation result compared after the round trip')
BOUNDS = dict(parts='all 64 subsets of 6 parts', months='1, 2, 3 or 12 months incl. two-digit and unordered',
              cascade='1..4 seasons, averaged or 5 tables per season, 9 or 11 thresholds, several magnitudes',
              failures='unexportable object at each of 12 places, file present or absent')
ASSUMPTIONS = ['tables of monthly values are stored with ten decimals']

PARTS = ['wind', 'precip', 'hum', 'temp', 'glob', 'means']
MONTHS = [list(range(1, 13)), [1], [10], [12, 1, 2], [2, 11], [9, 10, 11, 12]]
SEASONS = [[list(range(1, 13))], [[1, 2, 3, 4, 5, 6], [7, 8, 9, 10, 11, 12]],
           [[3, 4, 5], [6, 7, 8], [9, 10, 11], [12, 1, 2]], [[12, 1], [2, 3, 4, 5, 6, 7, 8, 9, 10, 11]]]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='mc-c21-')
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)

    def __call__(self, name='stats.json'):
        return os.path.join(self.d, name)


def tables(kind, months):
    out = []
    for k, _ in enumerate(months):
        if kind == 'levels':
            out.append([casc.mixed([t + k + 1e-13]) for t in casc.THR5])
        elif kind == 'sample':
            out.append(casc.sample([t / 3.0 + k for t in casc.THR5]))
        elif kind == 'short':
            out.append(casc.short_sum([1e-12, 1e15 / 7, 2.0, 3.0, 4.0 + k]))
        else:
            s = casc.mixed([t * (k + 1) / 7.0 for t in casc.THR5])
            s.percentile = [37.5, 100, 0.1][k % 3]
            out.append(s)
    return out


def build(parts, months, kind='averaged', seasons=None, ndarray=False):
    s = melodist.StationStatistics()
    full = fix.statistics(1)
    if 'wind' in parts:
        s.wind.update(a=1 / 3.0, b=-1e-7 / 3, t_shift=13.123456789012345)
    if 'precip' in parts:
        seasons = seasons or SEASONS[0]
        s.precip.update(months=[np.array(m) if ndarray else list(m) for m in seasons],
                        stats=tables(kind, seasons))
    if 'hum' in parts:
        s.hum.update(a0=-2.0 / 7, a1=1.0 / 11, kr=12)
    if 'means' in parts:
        t = full.hum.month_hour_precip_mean / 3.0
        t = t[t.index.get_level_values(0).isin(months)]
        if len(months) == 1:
            t = t[t.index.get_level_values(2)]           # only wet days
        t.iloc[5] = np.nan           # a category without observations
        s.hum.month_hour_precip_mean = t
    if 'temp' in parts:
        mc = full.temp.mean_course[sorted(months)] / 3.0
        mc.iloc[20, -1] = np.nan         # an hour without observations
        s.temp.update(max_delta=full.temp.max_delta[sorted(months)] / 7.0, mean_course=mc)
    if 'glob' in parts:
        a = full.glob.angstroem / 3.0
        b = full.glob.bristcamp / 3.0
        mc = full.glob.mean_course[sorted(months)] / 7.0
        mc.iloc[3, 0] = np.nan
        s.glob.update(angstroem=a, bristcamp=b, mean_course=mc)
    return s


def same_frame(ctx, a, b, what):
    if a is None or b is None:
        ctx.check(a is None and b is None, '%s: %s after import, was %s', what,
                  'nothing' if b is None else 'something', 'nothing' if a is None else 'something')
        return
    ctx.check(type(b) is type(a), '%s is a %s, was a %s', what, type(b).__name__, type(a).__name__)
    ctx.check(list(b.index) == list(a.index), '%s: index %s .., was %s ..', what, list(b.index)[:6],
              list(a.index)[:6])
    if isinstance(a, pd.DataFrame):
        ctx.check(list(b.columns) == list(a.columns), '%s: columns %s, was %s', what, list(b.columns),
                  list(a.columns))
    kinds = {t.kind for t in (b.dtypes if isinstance(b, pd.DataFrame) else [b.dtype])}
    ctx.check(kinds <= {'f'}, '%s has other types than floating point numbers: %s', what, kinds)
    expect(ctx, b.to_numpy(dtype=float), a.to_numpy(dtype=float), what, rtol=0, atol=5.1e-11)


def same_stats(ctx, a, b):
    for k in ('a', 'b', 't_shift'):
        ctx.check(a.wind[k] == b.wind[k], 'wind.%s: %r, was %r', k, b.wind[k], a.wind[k])
    for k in ('a0', 'a1', 'kr'):
        ctx.check(a.hum[k] == b.hum[k], 'hum.%s: %r, was %r', k, b.hum[k], a.hum[k])
    same_frame(ctx, a.hum.month_hour_precip_mean, b.hum.month_hour_precip_mean, 'humidity means')
    same_frame(ctx, a.temp.max_delta, b.temp.max_delta, 'temperature shift')
    same_frame(ctx, a.temp.mean_course, b.temp.mean_course, 'temperature course')
    for k in ('angstroem', 'bristcamp', 'mean_course'):
        same_frame(ctx, a.glob[k], b.glob[k], 'radiation ' + k)
    if a.precip.months is None:
        ctx.check(b.precip.months is None and b.precip.stats is None, 'precipitation statistics appeared')
        return
    ctx.check([list(m) for m in a.precip.months] == [list(m) for m in b.precip.months], 'months: %s, was %s',
              b.precip.months, a.precip.months)
    ctx.check(len(a.precip.stats) == len(b.precip.stats), 'number of seasons differs')
    for x, y in zip(a.precip.stats, b.precip.stats):
        xs, ys = (x, y) if isinstance(x, list) else ([x], [y])
        ctx.check(isinstance(ys, list) and len(xs) == len(ys), 'number of levels differs')
        for p, q in zip(xs, ys):
            ctx.check(type(q) is type(p), 'cascade tables became %s', type(q).__name__)
            for f in ('p01', 'p10', 'pxx', 'wxx', 'threshold', 'percentile'):
                ctx.check(np.array_equal(np.asarray(getattr(p, f)), np.asarray(getattr(q, f))),
                          'cascade %s differs after the round trip', f)


def trip(ctx, s):
    before = s.to_json()
    with Scratch() as f:
        r = s.to_json(f())
        ctx.check(r is None, 'writing a file returns %r', r)
        with open(f()) as g:
            ctx.check(g.read() == before, 'text of the file and returned text differ')
        ctx.check(sorted(os.listdir(f.d)) == ['stats.json'], 'other files left: %s', os.listdir(f.d))
        t = melodist.StationStatistics.from_json(f())
        same_stats(ctx, s, t)
        t.to_json(f('again.json'))
        with open(f('again.json')) as g:
            again = g.read()
        u = melodist.StationStatistics.from_json(f('again.json'))
    same_stats(ctx, s, u)
    ctx.check(again == before, 'exporting the imported statistics gives another text')
    ctx.check(s.to_json() == before, 'exporting changed the statistics')
    ctx.observe(before)
    return t


def scen_parts(ctx):
    parts = [p for p in PARTS if not ctx.choose(2, 'without ' + p)]
    months = ctx.pick(MONTHS, 'months')
    trip(ctx, build(parts, months))


def scen_values(ctx):
    """Zeros, negative, very small and large numbers everywhere."""
    v = [ctx.pick([0.0, -1.5, 1e-9, 12345.678], 'value') for _ in range(2)]
    months = ctx.pick([MONTHS[0], [3]], 'months')
    s = build(PARTS, months)
    s.wind.update(a=v[0], b=v[1], t_shift=v[0])
    s.hum.update(a0=v[1], a1=v[0], kr=int(v[0]))
    s.temp.max_delta.iloc[0] = v[0]
    s.temp.mean_course.iloc[0] = v[0]
    s.temp.mean_course.iloc[23] = v[1]
    s.glob.mean_course.iloc[:] = v[1]
    s.glob.angstroem.iloc[:, 0] = v[0]
    s.glob.bristcamp.iloc[3] = v[1]
    s.hum.month_hour_precip_mean.iloc[::2] = v[0]
    if ctx.choose(2, 'other order of the rows'):
        s.hum.month_hour_precip_mean = s.hum.month_hour_precip_mean.iloc[::-1]
    every = ctx.choose(3, 'months without observations')
    if every:
        # a month or all months without valid observations
        gone = slice(0, 1) if every == 1 else slice(None)
        s.temp.max_delta.iloc[gone] = np.nan
        s.temp.mean_course.iloc[:, gone] = np.nan
        s.glob.mean_course.iloc[:, gone] = np.nan
    t = trip(ctx, s)
    # imported statistics can be calibrated
    t.glob.angstroem.loc[3] = 0.25, 1.0 / 3.0
    t.glob.bristcamp.loc[3] = 0.75, 7.0 / 3.0
    ctx.check(t.glob.angstroem.loc[3].tolist() == [0.25, 1.0 / 3.0] and
              t.glob.bristcamp.loc[3].tolist() == [0.75, 7.0 / 3.0], 'coefficients of one month cannot be replaced')


def scen_cascade(ctx):
    kind = ctx.pick(['averaged', 'levels', 'sample', 'short'], 'tables')
    seasons = ctx.pick(SEASONS, 'seasons')
    nd = bool(ctx.choose(2, 'months as arrays'))
    s = build(['precip'], MONTHS[0], kind, seasons, nd)
    t = trip(ctx, s)
    res = []
    for x in (s, t):
        st = melodist.Station(lon=8.9, lat=51.3, timezone=1, data_daily=fix.daily('2015-12-20', 70))
        st.statistics = x
        with scripted_random(cyc([0.3, 0.55, 0.9, 0.05, 0.7])):
            st.disaggregate_precipitation('cascade')
        res.append(st.data_disagg.precip.to_numpy())
    expect(ctx, res[1], res[0], 'precipitation with imported statistics')


def scen_equal(ctx):
    """Imported tables compare equal to the exported ones until a number is changed."""
    kind = ctx.pick(['averaged', 'levels', 'sample', 'short'], 'tables')
    s = build(['precip'], MONTHS[0], kind, SEASONS[0])
    t = trip(ctx, s)
    x, y = [z.precip.stats[0][1] if kind == 'levels' else z.precip.stats[0] for z in (s, t)]
    ctx.check(x == y and not (x != y), 'imported tables do not compare equal')
    f = ctx.pick(['p01', 'p10', 'pxx', 'wxx', 'threshold', 'percentile'], 'entry')
    v = np.atleast_1d(np.array(getattr(y, f), dtype=float))
    n = ctx.choose(v.size, 'place')
    by = ctx.pick([0.3, -0.3], 'change')
    v.flat[n] += by * (max(1.0, abs(v.flat[n])) if f == 'threshold' else 1.0)
    setattr(y, f, float(v[0]) if f == 'percentile' else v)
    for a, b in ((x, y), (y, x)):
        ctx.check(a != b and not (a == b), 'tables compare equal although %s %s differs by %s', f, n, by)


def scen_depth(ctx):
    """Statistics for five-minute values with 9, 10 or 11 levels."""
    n = ctx.pick([9, 10, 11], 'levels')
    kind = ctx.pick(['averaged', 'levels'], 'tables')
    seasons = ctx.pick(SEASONS[:3], 'seasons')
    s = melodist.StationStatistics()
    thr = [t / 7.0 for t in casc.THR11[:n]]
    s.precip.update(months=[list(m) for m in seasons],
                    stats=[casc.mixed([t + k for t in thr]) if kind == 'averaged' else
                           [casc.mixed([t + k]) for t in thr] for k in range(len(seasons))])
    t = trip(ctx, s)
    df = fix.daily('2016-02-26', 6)
    for x, y in zip(s.precip.stats, t.precip.stats):
        res = []
        for z in (x, y):
            with scripted_random(cyc([0.3, 0.55, 0.9, 0.05, 0.7])):
                res.append(melodist.disagg_prec_cascade(df.precip, z, hourly=False, level=n).to_numpy(dtype=float))
        expect(ctx, res[1], res[0], 'five-minute precipitation with imported statistics')


def scen_results(ctx):
    """All methods give the same results with imported statistics."""
    op = ctx.pick(sorted(n for n in fix.OPS if n not in fix.RANDOM), 'operation')
    months = ctx.pick([MONTHS[0], [2, 3]], 'months')
    df = fix.daily('2016-02-20', 12)
    s = build(PARTS, months)
    with Scratch() as f:
        s.to_json(f())
        t = melodist.StationStatistics.from_json(f())
    res = []
    for x in (s, t):
        st = fix.station(df, temp=fix.hourly_temp(df))
        st.statistics = x
        fix.OPS[op][1](st)
        res.append(st.data_disagg[fix.OPS[op][0]].to_numpy())
    expect(ctx, res[1], res[0], op + ' with imported statistics', rtol=1e-7, atol=1e-7)
    ctx.observe(res[0])


def scen_calibrated(ctx):
    """Statistics calculated from hourly data."""
    start, n = ctx.pick([('2016-02-20', 20), ('2015-01-01', 365), ('2015-10-20', 80)], 'data')
    parts = [p for p in ('precip', 'wind', 'hum', 'temp', 'glob') if not ctx.choose(2, 'without ' + p)]
    if n > 100 and len(parts) not in (1, 5):
        return
    avg = not ctx.choose(2, 'per level') if 'precip' in parts else True
    s = melodist.StationStatistics(data=fix.hourly(start, n), lon=8.9, lat=51.3, timezone=1)
    if 'precip' in parts:
        s.calc_precipitation_stats(avg_stats=avg)
    if 'wind' in parts:
        s.calc_wind_stats()
    if 'hum' in parts:
        s.calc_humidity_stats()
    if 'temp' in parts:
        s.calc_temperature_stats()
    if 'glob' in parts:
        s.calc_radiation_stats()
    trip(ctx, s)


class Unknown:
    pass


PLACES = [('wind', 'a'), ('wind', 'b'), ('wind', 't_shift'), ('hum', 'a0'), ('hum', 'kr'),
          ('hum', 'month_hour_precip_mean'), ('temp', 'max_delta'), ('temp', 'mean_course'),
          ('precip', 'months'), ('precip', 'stats'), ('glob', 'angstroem'), ('glob', 'mean_course')]


def scen_failure(ctx):
    """A failed export leaves an existing file alone."""
    part, key = ctx.pick(PLACES, 'place')
    bad = ctx.pick([Unknown(), {1, 2}, [1, Unknown()], 1j], 'content')
    present = not ctx.choose(2, 'no file yet')
    s = build(PARTS, MONTHS[0])
    with Scratch() as f:
        if present:
            s.to_json(f())
            with open(f()) as g:
                old = g.read()
        good = getattr(s, part)[key]
        getattr(s, part)[key] = bad
        failed = False
        try:
            s.to_json(f())
        except Exception:
            failed = True
        ctx.check(failed, 'exporting %r at %s.%s does not fail', type(bad).__name__, part, key)
        if present:
            with open(f()) as g:
                ctx.check(g.read() == old, 'failed export of %s.%s damaged the existing file', part, key)
            same_stats(ctx, build(PARTS, MONTHS[0]), melodist.StationStatistics.from_json(f()))
        getattr(s, part)[key] = good
        s.to_json(f())
        same_stats(ctx, s, melodist.StationStatistics.from_json(f()))
    ctx.observe(part, key, present)


def scen_overwrite(ctx):
    """A longer file is replaced completely by a shorter one."""
    a = [p for p in PARTS if not ctx.choose(2, 'first without ' + p)]
    b = ctx.pick([[], ['wind'], PARTS], 'second')
    with Scratch() as f:
        r = build(a, MONTHS[0])
        r.to_json(f())
        one, two = melodist.StationStatistics.from_json(f()), melodist.StationStatistics.from_json(f())
        same_stats(ctx, r, one)
        # imports are independent of each other and of the file
        one.wind.update(a=-7.0, b=-8.0, t_shift=-9.0)
        one.hum.clear()
        one.glob.angstroem.loc[3] = 0.1, 0.2
        one.temp.update(max_delta=None)
        same_stats(ctx, r, two)
        same_stats(ctx, r, melodist.StationStatistics.from_json(f()))
        s = build(b, MONTHS[5])
        s.to_json(f())
        same_stats(ctx, s, melodist.StationStatistics.from_json(f()))
        same_stats(ctx, r, two)
    ctx.observe(a, b)


def scenarios(tier):
    return [('parts', scen_parts), ('values', scen_values), ('cascade', scen_cascade), ('equal', scen_equal), ('depth', scen_depth), ('results', scen_results),
            ('calibrated', scen_calibrated), ('failure', scen_failure), ('overwrite', scen_overwrite)]
