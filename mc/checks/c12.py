"""C12: vapour pressure and dew point."""
import itertools

import numpy as np
import pandas as pd

from .. import ref_hum
from ..common import NAN, expect
from ..repo import melodist

RULE = ('choice = arrangement of temperatures and humidities in one array, container type, scalar or '
        'element-wise humidity; every element compared with the scalar reference, relations checked on '
        'the full grid')
BOUNDS = dict(
    arrangements='all words of length 4 over 5 temperatures and of length 3 over 5 x 3 combinations',
    forms='arrays and series of whole numbers (lengths 1..3), humidities 0, 1e-6 ... 250 %',
    grid='temperature 223..323 K in 101 steps plus the freezing point, humidity 0.0001..100 % in 37 steps',
)
ASSUMPTIONS = ['humidity above zero for the dew point']

TEMPS = [290.0, 273.15, 273.149, 250.0, NAN]
HUMS = [100.0, 37.5, NAN]


def containers(v, kind):
    if kind == 'array':
        return np.array(v, dtype=float)
    if kind == 'whole numbers':
        return np.array(v, dtype=int)
    if kind == 'series of whole numbers':
        return pd.Series(v, index=pd.date_range('2016-01-01', periods=len(v), freq='h'), dtype=int)
    if kind == 'series':
        return pd.Series(v, index=pd.date_range('2016-01-01', periods=len(v), freq='h'), dtype=float)
    return pd.Series(v, index=list(range(10, 10 + len(v))), dtype=float)


def one(ctx, temps, hums, kind):
    t = containers(temps, kind)
    h = containers(hums, kind)
    t0, h0 = t.copy(), h.copy()
    e = melodist.util.vapor_pressure(t, h)
    d = melodist.util.dewpoint_temperature(t, h)
    expect(ctx, e, [ref_hum.vapour(a, b) for a, b in zip(temps, hums)], 'vapour pressure')
    expect(ctx, d, [ref_hum.dewpoint(a, b) for a, b in zip(temps, hums)], 'dew point')
    for s in (100, 62.5):
        e = melodist.util.vapor_pressure(t, s)
        expect(ctx, e, [ref_hum.vapour(a, s) for a in temps], 'vapour pressure, scalar humidity')
    same_in = np.array_equal(np.asarray(t), np.asarray(t0), equal_nan=True) and np.array_equal(
        np.asarray(h), np.asarray(h0), equal_nan=True)
    ctx.check(same_in, 'the input was modified')
    ctx.observe(np.asarray(d, dtype=float), np.asarray(e, dtype=float))


def scen_arrange(ctx):
    kind = ctx.pick(['array', 'series', 'integer index'], 'container')
    n = ctx.pick([4, 1, 2], 'length')
    temps = [ctx.pick(TEMPS, 'temperature') for _ in range(n)]
    one(ctx, temps, [40.0 + 10 * i for i in range(n)], kind)


def scen_pairs(ctx):
    kind = ctx.pick(['array', 'series'], 'container')
    first = ctx.pick(list(itertools.product(TEMPS, HUMS)), 'first')
    for second in itertools.product(TEMPS, HUMS):
        for third in itertools.product(TEMPS, HUMS):
            one(ctx, [first[0], second[0], third[0]], [first[1], second[1], third[1]], kind)


def scen_whole(ctx):
    """Temperatures and humidities as whole numbers."""
    kind = ctx.pick(['whole numbers', 'series of whole numbers'], 'container')
    n = ctx.pick([3, 1, 2], 'length')
    temps = [ctx.pick([290, 273, 274, 251], 'temperature') for _ in range(n)]
    one(ctx, temps, [ctx.pick([100, 37], 'humidity') for _ in range(n)], kind)


def scen_amounts(ctx):
    """The vapour pressure is proportional for every humidity, also beyond the usual range."""
    kind = ctx.pick(['array', 'series'], 'container')
    first = ctx.pick([0.0, 1e-6, 0.3, 100.0, 100.5, 250.0, NAN], 'first humidity')
    for rest in itertools.product([0.0, 1e-6, 0.3, 100.5, 250.0, NAN], repeat=2):
        for temps in itertools.permutations([295.0, 273.15, 240.0]):
            t = containers(temps, kind)
            hums = (first,) + rest
            e = melodist.util.vapor_pressure(t, containers(hums, kind))
            expect(ctx, e, [ref_hum.vapour(a, b) for a, b in zip(temps, hums)], 'vapour pressure')
            if first == first:
                e = melodist.util.vapor_pressure(t, first)
                expect(ctx, e, [ref_hum.vapour(a, first) for a in temps], 'scalar humidity')
    ctx.observe(np.asarray(e, dtype=float))


def scen_grid(ctx):
    """Relations between both functions on the full grid."""
    hum = ctx.pick([1.0 + 3 * i for i in range(34)] + [0.5, 0.01, 1e-4], 'humidity')
    t = np.array(sorted([223.0 + i for i in range(101)] + [273.15, 273.1499999, 273.1500001]))
    h = np.full(len(t), hum)
    e = melodist.util.vapor_pressure(t, h)
    d = melodist.util.dewpoint_temperature(t, h)
    expect(ctx, e, [ref_hum.vapour(a, hum) for a in t], 'vapour pressure')
    expect(ctx, d, [ref_hum.dewpoint(a, hum) for a in t], 'dew point')
    expect(ctx, melodist.util.vapor_pressure(t, 100) * hum / 100.0, e, 'proportional to humidity')
    ctx.check((np.diff(e) > -1e-12).all(), 'vapour pressure is not increasing with temperature')
    ctx.check((d <= t + 1e-9).all(), 'dew point above temperature')
    if hum == 100.0:
        expect(ctx, d, t, 'dew point of saturated air')
    else:
        d2 = melodist.util.dewpoint_temperature(t, h * 1.001)
        ctx.check((d2 > d).all(), 'dew point does not increase with humidity')
    same_phase = (d >= 273.15) == (t >= 273.15)
    expect(ctx, melodist.util.vapor_pressure(d[same_phase], 100), e[same_phase],
           'vapour pressure at the dew point', rtol=1e-8)
    ctx.observe(e, d)


def scen_inverse(ctx):
    """Humidity from dew point and temperature gives back the humidity (same phase)."""
    t = ctx.pick([285.0, 300.0, 320.0, 240.0, 260.0, 273.0], 'temperature')
    for hum in np.arange(50.0, 100.5, 2.5):
        d = melodist.util.dewpoint_temperature(np.array([t]), np.array([hum]))
        e1 = melodist.util.vapor_pressure(d, 100)[0]
        e2 = melodist.util.vapor_pressure(np.array([t]), 100)[0]
        if (d[0] >= 273.15) == (t >= 273.15):
            ctx.check(abs(100 * e1 / e2 - hum) < 1e-7, 'humidity %s became %s', hum, 100 * e1 / e2)
        ctx.observe(d)


def scen_shape(ctx):
    """Humidity and temperature of different length are not combined."""
    f = ctx.pick(['vapor_pressure', 'dewpoint_temperature'], 'function')
    n, m = ctx.pick([(3, 2), (1, 3), (4, 5)], 'lengths')
    try:
        getattr(melodist.util, f)(np.full(n, 280.0), np.full(m, 50.0))
    except Exception:
        ctx.check(True, '')
        return
    ctx.fail('arrays of length %d and %d were accepted' % (n, m))


def scenarios(tier):
    return [('arrangements', scen_arrange), ('pairs', scen_pairs), ('grid', scen_grid),
            ('whole-numbers', scen_whole), ('amounts', scen_amounts),
            ('inverse', scen_inverse), ('shape', scen_shape)]
