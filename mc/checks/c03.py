"""C03: cascade branching uses the probabilities of the proper class and level."""
import numpy as np
import pandas as pd

from .. import casc
from .. import ref_cascade as ref
from ..common import NAN, cyc, days, debruijn, expect, scripted_random
from ..repo import melodist

RULE = ('choice = daily series (all words), deterministic branching tables (one action per class and '
        'level), thresholds; every level of the cascade is compared with the reference. For the '
        'shares of the random range the draws are enumerated on a grid of cell centres')
BOUNDS = dict(
    series='all words of 2..4 days over {0, 1, 5.5} for every single-class change of 4 base tables',
    tables='9 actions for each of the 8 classes; 4^5 (thorough 6^5) per-level tables',
    thresholds='daily amounts between and exactly at the 5 thresholds, all 120 orders of thresholds',
    shares='400 cell centres of the random range for 8 classes; 20 x 20 pairs of draws; '
           'borders between outcomes located to 1e-11 for each class',
)
ASSUMPTIONS = ['weight classes and class centres as documented (seven classes)']

ACTIONS = ['01', '10', 0, 1, 2, 3, 4, 5, 6]
CLASSES = [(i, j) for i in range(2) for j in range(4)]


def compare(ctx, daily, opts, action, thresholds, word=(0.5,)):
    """action(level 1..5, intensity, position)"""
    s = pd.Series(list(daily), index=days('2016-02-27', len(daily)), dtype=float)
    with scripted_random(cyc(word)):
        res = melodist.disagg_prec_cascade(s, opts, test=True)
    v = list(daily)
    for level in range(1, 6):
        v = ref.branch(v, thresholds[5 - level], lambda i, j: action(level, i, j))
        expect(ctx, res[level - 1], v, 'level %d of the cascade' % level)
    expect(ctx, res[-1], ref.to_hours(v), 'hourly values', index=res[-1].index)
    ctx.observe(res[-1])


BASES = {
    'middle': {c: 3 for c in CLASSES},
    'first': {c: '10' for c in CLASSES},
    'second': {c: '01' for c in CLASSES},
    'mixed': {(0, 0): '01', (0, 1): 2, (0, 2): '10', (0, 3): 4,
              (1, 0): 5, (1, 1): 1, (1, 2): 6, (1, 3): '01'},
}


def scen_policy(base):
    def fn(ctx):
        c = ctx.pick(CLASSES, 'class')
        policy = dict(BASES[base])
        policy[c] = ctx.pick(ACTIONS, 'action')
        thr = [0.06, 0.4, 0.9, 1.7, 3.1]
        for n in ((2, 3, 4) if ctx.tier == 'thorough' else (2, 3)):
            for k in range(3 ** n):
                daily = [(0.0, 1.0, 5.5)[k // 3 ** i % 3] for i in range(n)]
                compare(ctx, daily, casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr)
    return fn


def scen_two(ctx):
    """Two classes deviate from the base table."""
    a = ctx.pick(CLASSES, 'class 1')
    b = ctx.pick(CLASSES, 'class 2')
    policy = dict(BASES['middle'])
    policy[a] = ctx.pick(['01', '10', 0, 6], 'action 1')
    policy[b] = ctx.pick(['01', '10', 1, 5], 'action 2')
    thr = [0.06, 0.4, 0.9, 1.7, 3.1]
    for daily in ([5.5, 1.0, 0.0, 5.5], [0.0, 1.0, 5.5, 5.5, 0.0, 1.0]):
        compare(ctx, daily, casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr,
                (0.37, 0.81))


def scen_threshold(ctx):
    """Amounts move unsplit through all levels: the class at each level only depends on the
    threshold of that level."""
    import itertools
    base = [1.0, 2.0, 4.0, 8.0, 16.0]
    thr = ctx.pick(list(itertools.permutations(base)), 'thresholds')
    policy = {c: ('10' if c[0] else '01') for c in CLASSES}
    for v in (0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 6.0, 8.0, 12.0, 16.0, 20.0):
        for daily in ([v, 0.0], [0.0, v], [v, 3.0, 0.0]):
            compare(ctx, daily, casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr)
            opts = [casc.policy_stats(policy, [t]) for t in thr]
            compare(ctx, daily, opts, lambda l, i, j: policy[i, j], thr)


def scen_levels(ctx):
    """Separate statistics for each level."""
    menu = ACTIONS[::2] + ['10'] if ctx.tier == 'thorough' else ['01', '10', 1, 4]
    acts = [ctx.pick(menu, 'action at level %d' % (k + 1)) for k in range(5)]
    thr = [0.06, 0.4, 0.9, 1.7, 3.1]
    # entry 0 belongs to the finest level (5), entry 4 to the coarsest (1)
    opts = [casc.policy_stats({c: acts[4 - k] for c in CLASSES}, [thr[k]]) for k in range(5)]
    for daily in ([5.5, 1.0], [0.0, 2.0, 0.3]):
        compare(ctx, daily, opts, lambda l, i, j: acts[l - 1], thr)


def scen_missing(ctx):
    """Missing days count as dry neighbours."""
    c = ctx.pick(CLASSES, 'class')
    policy = dict(BASES[ctx.pick(['middle', 'mixed'], 'base')])
    policy[c] = ctx.pick(['01', '10', 1], 'action')
    thr = [0.06, 0.4, 0.9, 1.7, 3.1]
    for k in range(4 ** 3):
        daily = [(0.0, 1.0, 5.5, NAN)[k // 4 ** i % 4] for i in range(3)]
        if not any(x != x for x in daily):
            continue
        s = pd.Series(daily, index=days('2016-02-27', 3))
        with scripted_random(cyc((0.5,))):
            out = melodist.disagg_prec_cascade(s, casc.policy_stats(policy, thr))
        v = [0.0 if x != x else x for x in daily]
        for level in range(1, 6):
            v = ref.branch(v, thr[5 - level], lambda i, j: policy[i, j])
        want = np.array(ref.to_hours(v))
        want[np.repeat(np.isnan(daily), 24)] = np.nan
        expect(ctx, out, want, 'hourly values of %s' % daily, index=out.index)
        ctx.observe(out)


def scen_level_class(ctx):
    """Separate statistics for each level with different actions per class."""
    k = ctx.choose(5, 'level')
    c = ctx.pick(CLASSES, 'class')
    a = ctx.pick(ACTIONS, 'action')
    thr = [0.06, 0.4, 0.9, 1.7, 3.1]
    tables = [dict(BASES['mixed']) for _ in range(5)]
    tables[k][c] = a
    opts = [casc.policy_stats(tables[5 - level], [thr[5 - level]]) for level in range(5, 0, -1)]
    for daily in ([5.5, 1.0, 0.0, 5.5, 0.0, 0.2, 7.0, 7.0, 0.1], [0.0, 1.0, 5.5, 5.5, 0.0, 1.0]):
        compare(ctx, daily, opts, lambda l, i, j: tables[5 - l][i, j], thr)


# days of the series and their classes at the first level (threshold 2): below/above x position
SHARE_DAYS = [1.0, 0.0, 5.0, 0.0, 1.0, 5.0, 0.0, 5.0, 1.0, 5.0, 1.0, 0.0, 5.0, 5.0, 1.0, 1.0, 5.0]


RARE = [(0.025, 0.025, 0.95), (0.95, 0.025, 0.025), (0.025, 0.95, 0.025), (0.475, 0.5, 0.025),
        (0.5, 0.025, 0.475), (0.025, 0.475, 0.5), (0.0, 0.975, 0.025), (0.975, 0.0, 0.025)]
RARER = [(0.004, 0.004, 0.992), (0.992, 0.004, 0.004), (0.004, 0.992, 0.004), (0.496, 0.5, 0.004),
         (0.5, 0.004, 0.496), (0.004, 0.496, 0.5), (0.0, 0.996, 0.004), (0.996, 0.0, 0.004)]


def share_tables(weights, rare=0):
    """Different probabilities for every class, multiples of 1/40."""
    p01 = np.zeros((2, 4))
    p10 = np.zeros((2, 4))
    wxx = np.zeros((7, 2, 4))
    for n, (i, j) in enumerate(CLASSES):
        if not weights:
            p01[i, j] = (3 + n) / 40.0
            p10[i, j] = (19 - 2 * n) / 40.0
        w = np.array([4, 6, 8, 4, 6, 5, 7], dtype=float)
        w[n % 7] += 3
        w[(n + 3) % 7] -= 3
        if rare:
            p01[i, j], p10[i, j] = (0.0, 0.0) if weights else RARE[(n + rare) % 8][:2]
            w = np.array([1, 1, 1, 1, 1, 1, 34] if n % 2 else [1, 0, 17, 0, 1, 0, 21], dtype=float)
            if rare == 3:
                p01[i, j], p10[i, j] = (0.0, 0.0) if weights else RARER[n % 8][:2]
                w = np.array([1, 1, 1, 1, 1, 1, 244], dtype=float) * 0.16
            w = np.roll(w, n + rare)
        wxx[:, i, j] = w / 40.0
    return p01, p10, 1.0 - p01 - p10, wxx


def classify(v, a, b):
    if a == 0:
        return '01'
    if b == 0:
        return '10'
    k = int(np.argmin([abs(a / v - c) for c in ref.CENTRE]))
    return k if abs(a / v - ref.CENTRE[k]) < 1e-9 else 'other'


def scen_shares(ctx):
    """Share of the random range for each outcome in each class at the first level."""
    weights = ctx.choose(2, 'branching types only/weights only')
    p01, p10, pxx, wxx = share_tables(weights, ctx.choose(3, 'rare outcomes'))
    opts = casc.stats(p01, p10, pxx, wxx, [2.0] * 5)
    s = pd.Series(SHARE_DAYS, index=days('2016-01-01', len(SHARE_DAYS)))
    n = 400
    count = {}
    for g in range(n):
        u = (g + 0.5) / n
        with scripted_random(cyc((u,))):
            v1 = melodist.disagg_prec_cascade(s, opts, test=True)[0]
        for d, v in enumerate(SHARE_DAYS):
            if v > 0:
                o = classify(v, v1[2 * d], v1[2 * d + 1])
                if not weights and o not in ('01', '10'):
                    o = 'xx' if o != 'other' else o
                count[d, o] = count.get((d, o), 0) + 1
        ctx.observe(v1)
    for d, v in enumerate(SHARE_DAYS):
        if not v > 0:
            continue
        c = (1 if v > 2 else 0, ref.position(SHARE_DAYS, d))
        want = ({k: wxx[(k,) + c] for k in range(7)} if weights else
                {'01': p01[c], '10': p10[c], 'xx': pxx[c]})
        for o in set(want) | {k[1] for k in count if k[0] == d}:
            share = count.get((d, o), 0) / n
            ctx.check(abs(share - want.get(o, 0.0)) <= 1.01 / n,
                      'day %s of %s, class %s: outcome %s has share %s of the random range, '
                      'probability %s', d, SHARE_DAYS, c, o, share, want.get(o, 0.0))


def scen_exact(ctx):
    """The borders of the random range between outcomes, located by bisection."""
    weights = ctx.choose(2, 'branching types only/weights only')
    d = ctx.pick([SHARE_CLASS[c] for c in CLASSES], 'day')
    p01, p10, pxx, wxx = share_tables(weights, ctx.choose(4, 'rare outcomes'))
    c = (1 if SHARE_DAYS[d] > 2 else 0, ref.position(SHARE_DAYS, d))
    part = SHARE_DAYS[max(d - 1, 0):d + 2]
    i = d - max(d - 1, 0)
    s = pd.Series(part, index=days('2016-01-01', len(part)))
    opts = casc.stats(p01, p10, pxx, wxx, [2.0] * 5)

    def outcome(u):
        with scripted_random(cyc((u,))):
            v1 = melodist.disagg_prec_cascade(s, opts, test=True)[0]
        o = classify(part[i], v1[2 * i], v1[2 * i + 1])
        return 'xx' if not weights and o not in ('01', '10', 'other') else o

    grid = [2.0 ** -40] + [(g + 0.5) / 300 for g in range(300)] + [1.0 - 2.0 ** -40]
    found = [outcome(u) for u in grid]
    share = {found[0]: grid[0], found[-1]: 0.0}
    share[found[-1]] += 1.0 - grid[-1]
    for a, b, x, y in zip(grid, grid[1:], found, found[1:]):
        lo, hi = a, b
        while x != y and hi - lo > 1e-11:
            mid = (lo + hi) / 2
            if outcome(mid) == x:
                lo = mid
            else:
                hi = mid
        border = hi if x != y else b
        share[x] = share.get(x, 0.0) + border - a
        share[y] = share.get(y, 0.0) + b - border
    want = ({k: wxx[(k,) + c] for k in range(7)} if weights else
            {'01': p01[c], '10': p10[c], 'xx': pxx[c]})
    for o in set(want) | set(share):
        ctx.check(abs(share.get(o, 0.0) - want.get(o, 0.0)) <= 1e-8,
                  'class %s: outcome %s has share %s of the random range, probability %s', c, o,
                  share.get(o, 0.0), want.get(o, 0.0))
    ctx.observe(np.array(sorted(share.values())))


SHARE_CLASS = {((1 if v > 2 else 0), ref.position(SHARE_DAYS, d)): d
               for d, v in enumerate(SHARE_DAYS) if v > 0}


def scen_long(ctx):
    """Long series with every context of four days."""
    policy = BASES[ctx.pick(list(BASES), 'table')]
    length = ctx.pick([84, 400, 800] if ctx.tier == 'thorough' else [84, 400], 'days')
    thr = [0.06, 0.4, 0.9, 1.7, 3.1]
    word = debruijn(3, 4)
    daily = [(0.0, 1.0, 5.5)[word[i % len(word)]] for i in range(length)]
    compare(ctx, daily, casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr)


def compare_fine(ctx, daily, opts, action, thresholds, depth, word=(0.5,)):
    """Every level of the cascade to five minutes; action(level 1..depth, intensity, position)"""
    s = pd.Series(list(daily), index=days('2016-02-27', len(daily)), dtype=float)
    with scripted_random(cyc(word)):
        res = melodist.disagg_prec_cascade(s, opts, hourly=False, level=depth, test=True)
    v = list(daily)
    for level in range(1, depth + 1):
        v = ref.branch(v, thresholds[depth - level], lambda i, j: action(level, i, j))
        expect(ctx, res[level - 1], v, 'level %d of %d' % (level, depth))
    ctx.observe(res[-1])


def scen_minutes(ctx):
    """Statistics of each level of the cascade to five minutes."""
    depth = ctx.pick([9, 10, 11], 'depth')
    level = ctx.choose(depth, 'level with other statistics') + 1
    per_level = bool(ctx.choose(2, 'per level'))
    # amounts hardly change along the cascade, all thresholds are different
    thr = [2.0 + 0.5 * ((5 * k) % depth) for k in range(depth)]
    # below the threshold first half only, above second half only
    near = thr[depth - level]
    policy = {c: ('10' if c[0] else '01') for c in CLASSES}
    other = {c: ('01' if c[0] else 5) for c in CLASSES}
    for daily in ([near, 0.0], [near + 0.01, near - 0.01, 0.0], [0.0, 30.0, near]):
        if per_level:
            opts = [casc.policy_stats(other if k == depth - level else policy, [thr[k]]) for k in range(depth)]
            compare_fine(ctx, daily, opts,
                         lambda l, i, j: (other if l == level else policy)[i, j], thr, depth)
        else:
            compare_fine(ctx, daily, casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr, depth)


def scen_minutes_class(ctx):
    """Every class in the cascade to five minutes."""
    depth = ctx.pick([9, 10, 11], 'depth')
    c = ctx.pick(CLASSES, 'class')
    policy = dict(BASES['mixed'])
    policy[c] = ctx.pick(['01', '10', 1, 5], 'action')
    thr = [0.02 * 2.0 ** k for k in range(depth)]
    compare_fine(ctx, [5.5, 1.0, 0.0, 22.0], casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr,
                 depth, (0.37, 0.81))


def scen_magnitudes(ctx):
    """Very small and very large amounts in all positions."""
    scale = ctx.pick([1e-6, 1e-3, 40.0, 1e3, 1e5], 'scale')
    policy = BASES[ctx.pick(list(BASES), 'table')]
    thr = [x * scale for x in (0.06, 0.4, 0.9, 1.7, 3.1)]
    daily = [(0.0, 1.0, 5.5)[k] * scale for k in debruijn(3, 3)]
    compare(ctx, daily, casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr)


def scen_contrast(ctx):
    """Very small next to very large amounts; thresholds of zero."""
    menu = [0.0, 1e-6, 1e-3, 5.5, 1e4]
    daily = [ctx.pick(menu, 'amount') for _ in range(ctx.pick([2, 3], 'days'))]
    policy = BASES[ctx.pick(['mixed', 'middle'], 'table')]
    for thr in ([0.06, 0.4, 0.9, 1.7, 3.1], [0.0] * 5, [0.0, 0.4, 0.0, 1.7, 0.0]):
        compare(ctx, daily, casc.policy_stats(policy, thr), lambda l, i, j: policy[i, j], thr)
        compare(ctx, daily, [casc.policy_stats(policy, [t]) for t in thr], lambda l, i, j: policy[i, j], thr)


def scen_joint(ctx):
    """Branching type and weight are drawn independently (all pairs of draws on a grid)."""
    v, c = ctx.pick([(1.0, (0, 3)), (5.0, (1, 3))], 'isolated day')
    p01, p10, pxx, _ = share_tables(False)
    p01[:], p10[:], pxx[:] = 0.2, 0.3, 0.5
    wxx = np.zeros((7, 2, 4))
    wxx[:] = np.array([2, 4, 3, 3, 2, 1, 5]).reshape(7, 1, 1) / 20.0
    opts = casc.stats(p01, p10, pxx, wxx, [2.0] * 5)
    s = pd.Series([v, 0.0], index=days('2016-01-01', 2))
    n = 20
    count = {}
    for g in range(n * n):
        first, later = (g // n + 0.5) / n, (g % n + 0.5) / n
        state = dict(n=0)

        def source():
            state['n'] += 1
            return first if state['n'] == 1 else later

        with scripted_random(source):
            v1 = melodist.disagg_prec_cascade(s, opts, test=True)[0]
        o = classify(v, v1[0], v1[1])
        count[o] = count.get(o, 0) + 1
        ctx.observe(v1)
    want = dict({k: pxx[c] * wxx[(k,) + c] for k in range(7)}, **{'01': 0.2, '10': 0.3})
    for o in set(want) | set(count):
        share = count.get(o, 0) / n ** 2
        ctx.check(abs(share - want.get(o, 0.0)) <= 1.01 / n / 2,
                  'outcome %s of a wet day has share %s of all pairs of draws, probability %s', o, share,
                  want.get(o, 0.0))


def scenarios(tier):
    out = [('table/' + b, scen_policy(b)) for b in BASES]
    return out + [('two-classes', scen_two), ('thresholds', scen_threshold), ('levels', scen_levels), ('missing', scen_missing),
                  ('level-classes', scen_level_class), ('shares', scen_shares),
                  ('exact', scen_exact), ('long', scen_long), ('joint', scen_joint),
                  ('minutes', scen_minutes), ('minutes-classes', scen_minutes_class),
                  ('magnitudes', scen_magnitudes), ('contrast', scen_contrast)]
