"""C28: radiation calibration uses each period's own data."""
import numpy as np
import pandas as pd

from .. import ref_sun
from ..common import days, expect, hours_of
from ..repo import melodist

RULE = ('choice = period option, true coefficients, available variables, missing days, changed month, entry point; '
        'angstroem compared with the normal equations of each period, Bristow-Campbell with the fit of the '
        'own subset')
BOUNDS = dict(periods='all, seasonal, monthly', missing='10 patterns x 3 variables', changed='each month',
              variables='all 8 subsets of ssd, tmin, tmax with and without day length')
ASSUMPTIONS = ['every period has enough complete days to fit', 'a day without radiation observations is missing '
               'completely']

PLACE = (8.9, 51.3, 1)
HOW = ['monthly', 'seasonal', 'all']
DEFAULT = dict(angstroem=(0.25, 0.75), bristcamp=(0.75, 2.4))
_cache = {}


def periods(how):
    return {'all': [list(range(1, 13))],
            'seasonal': [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]],
            'monthly': [[m] for m in range(1, 13)]}[how]


def base(start, n, place=PLACE):
    """Days, hourly potential radiation (n, 24) and day length from the reference sun model."""
    if (start, n, place) not in _cache:
        d = days(start, n)
        pot = np.array([sum(ref_sun.potential(t, *place)[:2]) for t in hours_of(d)]).reshape(n, 24)
        dl = np.array([ref_sun.sun_times(t.timetuple().tm_yday, *place)[3] for t in d])
        _cache[start, n, place] = (d, pot, dl)
    return _cache[start, n, place]


def build(start, n, noise, salt=0, model='ssd', place=PLACE):
    d, pot, dl = base(start, n, place)
    k = np.arange(n) + 17 * salt
    month = np.asarray(d.month)
    ssd = dl * (0.5 + 0.45 * np.sin(1.9 * k))
    tmin = 275.0 + 4.0 * np.sin(1.7 * k) + 5.0 * np.sin(k / 58.0)
    tmax = tmin + 8.0 + 2.5 * np.cos(2.3 * k)
    if model == 'ssd':
        day = (A[month] + B[month] * ssd / dl) * pot.mean(axis=1)
    else:
        day = (0.45 + 0.02 * month + 0.1 * np.sin(1.3 * k)) * pot.mean(axis=1)
    day = day * (1.0 + noise * np.sin(2.9 * k))
    hourly = pot / pot.mean(axis=1)[:, None] * day[:, None]
    daily = pd.DataFrame(dict(tmin=tmin, tmax=tmax, ssd=ssd), index=d)
    return daily, pd.DataFrame(dict(glob=hourly.ravel()), index=hours_of(d)), pd.Series(dl, index=d)


# distinct true coefficients of each month, index 0 unused
A = np.array([np.nan] + [0.16 + 0.013 * m for m in range(1, 13)])
B = np.array([np.nan] + [0.62 - 0.021 * m for m in range(1, 13)])
A[10], B[10] = -0.02, 0.66


def ref_angstroem(daily, hourly, dl, pot, months):
    obs = hourly.glob.to_numpy().reshape(-1, 24).mean(axis=1)
    ssd = daily.ssd.to_numpy()
    use = np.isin(daily.index.month, months) & np.isfinite(obs) & np.isfinite(ssd)
    p = pot.mean(axis=1)
    x = np.column_stack([p, ssd / dl.to_numpy() * p])
    return np.linalg.lstsq(x[use], obs[use], rcond=None)[0]


def calibrate(ctx, daily, hourly, how, dl, entry='statistics'):
    kw = dict(data_daily=daily, day_length=dl)
    if how != 'all' or entry == 'station':
        kw['how'] = how
    if entry == 'station':
        st = melodist.Station(lon=PLACE[0], lat=PLACE[1], timezone=PLACE[2], data_daily=daily)
        st.statistics = melodist.StationStatistics(data=hourly)
        kw['day_length'] = st.sun_times.daylength if dl is not None else None
        kw['data_daily'] = st.data_daily
        s = st.statistics
    else:
        s = melodist.StationStatistics(data=hourly, lon=PLACE[0], lat=PLACE[1], timezone=PLACE[2])
    s.calc_radiation_stats(**kw)
    for f, cols in ((s.glob.angstroem, ['a', 'b']), (s.glob.bristcamp, ['a', 'c'])):
        ctx.check(list(f.index) == list(range(1, 13)) and list(f.columns) == cols, 'table changed its shape: %s', f)
    ctx.observe(s.glob.angstroem, s.glob.bristcamp)
    return s


def check_default(ctx, s, name):
    t = s.glob[name]
    ctx.check((t.to_numpy(float) == np.array(DEFAULT[name])).all(),
              'the %s coefficients changed without calibration data: %s', name, t.to_numpy().tolist())


def check_angstroem(ctx, s, daily, hourly, dl, pot, how, exact):
    for months in periods(how):
        want = ref_angstroem(daily, hourly, dl, pot, months)
        for m in months:
            expect(ctx, s.glob.angstroem.loc[m].to_numpy(float), want, 'coefficients of month %d (%s)' % (m, how),
                   rtol=1e-5, atol=1e-6)
            if exact:
                expect(ctx, want, [A[m], B[m]], 'true coefficients of month %d' % m, rtol=1e-6, atol=1e-6)


# positions of missing days
MISSING = [
    lambda d: np.zeros(len(d), bool),
    lambda d: np.arange(len(d)) == 0,
    lambda d: np.arange(len(d)) == len(d) - 1,
    lambda d: np.asarray(d.day) == 1,
    lambda d: np.asarray(d.is_month_end),
    lambda d: np.asarray(d.day) > 8,
    lambda d: np.arange(len(d)) % 2 == 0,
    lambda d: np.isin(d.month, [2, 7]) & (np.asarray(d.day) < 20),
    lambda d: np.arange(len(d)) < 20,
    lambda d: np.isin(d.month, [5]) & (np.asarray(d.day) != 9) & (np.asarray(d.day) != 20),
]


def scen_angstroem(ctx):
    """Sunshine model against the normal equations."""
    how = ctx.pick(HOW, 'how')
    noise = ctx.pick([0.0, 0.15], 'noise')
    start, n = ctx.pick([('2015-01-01', 365), ('2015-07-10', 366), ('2015-12-01', 420)], 'period')
    miss = ctx.choose(len(MISSING), 'missing days')
    var = ctx.pick(['ssd', 'glob', 'both'], 'variable with missing days') if miss else None
    entry = ctx.pick(['statistics', 'station'], 'entry point')
    _, pot, _ = base(start, n)
    daily, hourly, dl = build(start, n, noise)
    extreme = ctx.choose(2, 'days without sunshine and longer than the day')
    daily = daily[['ssd']].copy()
    if extreme:
        # noise: the observations do not follow the sunshine any more
        daily.loc[daily.index[::5], 'ssd'] = 0.0
        daily.loc[daily.index[3::11], 'ssd'] = dl.iloc[3::11] * 1.08
    if miss:
        m = MISSING[miss](daily.index)
        if var in ('ssd', 'both'):
            daily.loc[m, 'ssd'] = np.nan
        if var == 'both':
            m = MISSING[3](daily.index)
        if var in ('glob', 'both'):
            hourly.loc[np.repeat(m, 24), 'glob'] = np.nan
    s = calibrate(ctx, daily, hourly, how, dl, entry)
    check_angstroem(ctx, s, daily, hourly, dl, pot, how, how == 'monthly' and not noise and not extreme)
    check_default(ctx, s, 'bristcamp')


def scen_north(ctx):
    """Little radiation in winter: dark days count as much as they weigh."""
    how = ctx.pick(HOW, 'how')
    place = (8.9, ctx.pick([65.5, -66.0], 'latitude'), 1)
    noise = ctx.pick([0.0, 0.15], 'noise')
    _, pot, _ = base('2015-01-01', 365, place)
    daily, hourly, dl = build('2015-01-01', 365, noise, place=place)
    s = melodist.StationStatistics(data=hourly, lon=place[0], lat=place[1], timezone=place[2])
    s.calc_radiation_stats(data_daily=daily[['ssd']], day_length=dl, how=how)
    check_angstroem(ctx, s, daily, hourly, dl, pot, how, how == 'monthly' and not noise)
    ctx.observe(s.glob.angstroem)


def scen_kept(ctx):
    """Models that are not calibrated keep what was calibrated or assigned before."""
    how = ctx.pick(HOW, 'how')
    have = ctx.pick([['ssd'], ['tmin', 'tmax'], ['tmin', 'ssd'], ['tmax', 'ssd'], []], 'variables')
    if how == 'monthly' and 'tmin' in have and 'tmax' in have:
        return
    _, pot, _ = base('2015-01-01', 365)
    daily, hourly, dl = build('2015-01-01', 365, 0.1)
    s = melodist.StationStatistics(data=hourly, lon=PLACE[0], lat=PLACE[1], timezone=PLACE[2])
    ang = pd.DataFrame(dict(a=[0.3 + 0.001 * m for m in range(12)], b=[0.4 + 0.002 * m for m in range(12)]),
                       index=range(1, 13))
    bc = pd.DataFrame(dict(a=[0.6 + 0.001 * m for m in range(12)], c=[1.4 + 0.002 * m for m in range(12)]),
                      index=range(1, 13))
    s.glob.update(angstroem=ang.copy(), bristcamp=bc.copy())
    s.calc_radiation_stats(data_daily=daily[have], day_length=dl, how=how)
    if 'ssd' in have:
        check_angstroem(ctx, s, daily, hourly, dl, pot, how, False)
    else:
        expect(ctx, s.glob.angstroem, ang, 'sunshine model without sunshine')
    if have == ['tmin', 'tmax']:
        check_bc(ctx, s, daily, hourly, pot, how)
    else:
        expect(ctx, s.glob.bristcamp, bc, 'temperature model without temperatures')
    ctx.observe(s.glob.angstroem, s.glob.bristcamp)


def scen_other(ctx):
    """Missing values of variables the model does not need have no influence."""
    how = ctx.pick(['all', 'seasonal'], 'how')
    miss = ctx.choose(len(MISSING) - 1, 'missing days') + 1
    var = ctx.pick(['ssd', 'tmin', 'tmax', 'x'], 'variable with missing days')
    _, pot, _ = base('2015-01-01', 365)
    daily, hourly, dl = build('2015-01-01', 365, 0.1)
    daily['x'] = 1.0
    daily.loc[MISSING[miss](daily.index), var] = np.nan
    # equal temperatures are a valid range of zero
    daily.loc[daily.index[7::30], 'tmax'] = daily.tmin[7::30]
    s = calibrate(ctx, daily, hourly, how, dl)
    check_angstroem(ctx, s, daily, hourly, dl, pot, how, False)
    check_bc(ctx, s, daily, hourly, pot, how)


def scen_changed(ctx):
    """Changing the data of one month changes the coefficients of its period only."""
    how = ctx.pick(HOW, 'how')
    month = ctx.choose(12, 'changed month') + 1
    var = ctx.pick(['ssd', 'glob'], 'changed variable')
    daily, hourly, dl = build('2015-01-01', 365, 0.1)
    daily = daily[['ssd']].copy()
    one = calibrate(ctx, daily, hourly, how, dl).glob.angstroem.copy()
    m = np.asarray(daily.index.month) == month
    if var == 'ssd':
        daily.loc[m, 'ssd'] *= 0.8
    else:
        hourly.loc[np.repeat(m, 24), 'glob'] *= 1.2
    two = calibrate(ctx, daily, hourly, how, dl).glob.angstroem
    own = [p for p in periods(how) if month in p][0]
    for k in range(1, 13):
        d = np.abs(two.loc[k].to_numpy(float) - one.loc[k].to_numpy(float)).max()
        if k in own:
            ctx.check(d > 1e-4, 'month %d is not affected by month %d (%s)', k, month, how)
        else:
            ctx.check(d < 1e-9, 'month %d is affected by month %d (%s)', k, month, how)


def scen_overlap(ctx):
    """Daily and hourly data cover different, overlapping periods."""
    how = ctx.pick(HOW, 'how')
    lead = ctx.pick([-20, 0, 31], 'first hourly day relative to the first daily day')
    tail = ctx.pick([-25, 0, 40], 'last hourly day relative to the last daily day')
    n = 470
    d, pot, _ = base('2014-12-01', n)
    daily, hourly, dl = build('2014-12-01', n, 0.1)
    first, last = 40, n - 41
    daily = daily[['ssd']].iloc[first:last]
    h = hourly.copy()
    a, b = first + lead, last + tail
    use = np.zeros(n, bool)
    use[a:b] = True
    ref = hourly.copy()
    ref.loc[~np.repeat(use, 24), 'glob'] = np.nan
    s = calibrate(ctx, daily, h.iloc[24 * a:24 * b], how, dl.iloc[first:last])
    check_angstroem(ctx, s, daily, ref.iloc[24 * first:24 * last], dl.iloc[first:last], pot[first:last], how, False)


def scen_available(ctx):
    """Which models are calibrated depends on the available variables only."""
    have = [v for v in ('tmin', 'tmax', 'ssd') if ctx.choose(2, 'with ' + v)]
    with_dl = ctx.choose(2, 'with day length') == 1
    daily, hourly, dl = build('2015-01-01', 365, 0.1)
    how = ctx.pick(['all', 'seasonal'] if 'tmin' in have and 'tmax' in have else HOW, 'how')
    daily = daily[have if how == 'all' else have[::-1]]
    _, pot, _ = base('2015-01-01', 365)
    s = calibrate(ctx, daily, hourly, how, dl if with_dl else None)
    if 'ssd' in have and with_dl:
        check_angstroem(ctx, s, daily, hourly, dl, pot, how, False)
    else:
        check_default(ctx, s, 'angstroem')
    if 'tmin' in have and 'tmax' in have:
        check_bc(ctx, s, daily, hourly, pot, how)
    else:
        check_default(ctx, s, 'bristcamp')
    # and the mean course is available in any case
    ctx.check(s.glob.mean_course is not None, 'no mean course')
    want = np.array([[hourly.glob.to_numpy()[(hourly.index.month == m) & (hourly.index.hour == h)].mean()
                      for m in range(1, 13)] for h in range(24)])
    expect(ctx, s.glob.mean_course, want, 'mean course')


def scen_none(ctx):
    """Without daily data only the mean course is calculated; a second calibration replaces the first."""
    _, hourly, dl = build('2015-01-01', 365, 0.1)
    s = melodist.StationStatistics(data=hourly, lon=PLACE[0], lat=PLACE[1], timezone=PLACE[2])
    first = ctx.pick(HOW, 'first calibration')
    second = ctx.pick(HOW + [None], 'second calibration')
    daily, _, _ = build('2015-01-01', 365, 0.1, salt=1)
    _, pot, _ = base('2015-01-01', 365)
    s.calc_radiation_stats()
    check_default(ctx, s, 'angstroem')
    check_default(ctx, s, 'bristcamp')
    s.calc_radiation_stats(data_daily=daily[['ssd']], day_length=dl, how=first)
    check_angstroem(ctx, s, daily, hourly, dl, pot, first, False)
    if second is None:
        s.calc_radiation_stats()
        second = first
    else:
        s.calc_radiation_stats(data_daily=daily[['ssd']], day_length=dl, how=second)
    check_angstroem(ctx, s, daily, hourly, dl, pot, second, False)
    check_default(ctx, s, 'bristcamp')


def bc_complete(daily, hourly):
    obs = hourly.glob.to_numpy().reshape(-1, 24).mean(axis=1)
    return np.isfinite(obs) & np.isfinite(daily.tmin.to_numpy()) & np.isfinite(daily.tmax.to_numpy()), obs


def check_bc(ctx, s, daily, hourly, pot, how, which=None):
    ok, obs = bc_complete(daily, hourly)
    for months in periods(how):
        got = s.glob.bristcamp.loc[months].to_numpy(float)
        ctx.check((got == got[0]).all(), 'months %s do not share their coefficients: %s', months, got.tolist())
        if which is not None and months[0] not in which:
            ctx.check(not np.allclose(got[0], DEFAULT['bristcamp']), 'months %s are not calibrated', months)
            continue
        use = ok & np.isin(daily.index.month, months)
        i = daily.index[use]
        want = melodist.fit_bristow_campbell_params(
            daily.tmin[use], daily.tmax[use], pd.Series(pot.mean(axis=1)[use], index=i),
            pd.Series(obs[use], index=i))
        for m, g in zip(months, got):
            expect(ctx, g, want, 'coefficients of month %d (%s)' % (m, how), rtol=1e-6, atol=1e-6)
    # different periods have different data
    if how != 'all':
        ctx.check(len({tuple(x) for x in s.glob.bristcamp.loc[[p[0] for p in periods(how)]].to_numpy(float).tolist()})
                  == len(periods(how)), 'two periods have the same coefficients')


def bc_scenario(full):
    def scen_bc(ctx):
        """Temperature model against the fit of the own subset."""
        how = ctx.pick(['seasonal', 'all', 'monthly'], 'how')
        miss = ctx.pick([0, 3, 7] if not full else list(range(len(MISSING))), 'missing days')
        var = ctx.pick(['tmin', 'tmax', 'glob'], 'variable with missing days') if miss else None
        start, n = ('2015-01-01', 365) if not full else ctx.pick([('2015-01-01', 365), ('2015-12-01', 420)], 'period')
        _, pot, _ = base(start, n)
        daily, hourly, _ = build(start, n, 0.05, model='bc')
        daily = daily[['tmin', 'tmax']].copy()
        if miss:
            m = MISSING[miss](daily.index)
            if var == 'glob':
                hourly.loc[np.repeat(m, 24), 'glob'] = np.nan
            else:
                daily.loc[m, var] = np.nan
        s = calibrate(ctx, daily, hourly, how, None)
        check_bc(ctx, s, daily, hourly, pot, how, which=(1, 7) if how == 'monthly' and not full else None)
        check_default(ctx, s, 'angstroem')
    return scen_bc


def scen_fit(ctx):
    """Direct fits recover the coefficients; the temperature fit reduces the bias."""
    a = ctx.pick([0.1, 0.2, 0.25, 0.35, 0.0, -0.01], 'a')
    b = ctx.pick([0.3, 0.5, 0.75, 0.9], 'b')
    n = ctx.pick([3, 10, 60], 'days')
    miss = ctx.choose(5, 'missing variable')
    d, pot, dl = base('2015-01-01', 365)
    k = np.arange(n)
    at = 40 + (np.arange(n) * 5) % 300
    at.sort()
    i = d[at]
    length = dl[at].copy()
    noise = np.zeros(n)
    if ctx.choose(2, 'short days') and n > 3:
        # the short days do not follow the others, and count like them
        length[2::4] = 0.4
        noise[2::4] = 0.2
    ssd = length * (0.5 + 0.45 * np.sin(1.9 * k))
    p = pot.mean(axis=1)[at]
    s = [pd.Series(v.copy(), index=i) for v in (ssd, length, p, (a + noise + b * ssd / length) * p)]
    if miss and n > 3:
        s[miss - 1].iloc[1] = np.nan
        s[3].iloc[4] = np.nan
    got = melodist.fit_angstroem_params(*s)
    if noise.any():
        f = pd.concat(s, axis=1).dropna()
        m = np.array([f[2], f[2] * f[0] / f[1]]).T
        a, b = np.linalg.lstsq(m, f[3].to_numpy(), rcond=None)[0]
    expect(ctx, got, [a, b], 'coefficients', rtol=1e-6, atol=1e-6)
    back = melodist.angstroem(s[0], s[1], s[2], got[0], got[1])
    expect(ctx, back.dropna(), ((a + b * s[0] / s[1]) * s[2]).dropna(), 'daily radiation', rtol=1e-5, atol=1e-4)
    ctx.observe(np.round(got, 6), miss, n)


def scenarios(tier):
    return [('angstroem', scen_angstroem), ('north', scen_north), ('changed', scen_changed), ('kept', scen_kept), ('other', scen_other),
            ('overlap', scen_overlap),
            ('available', scen_available), ('none', scen_none), ('fit', scen_fit),
            ('bristow-campbell', bc_scenario(tier == 'thorough'))]
