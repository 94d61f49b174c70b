"""Plain reference model of the temperature disaggregation methods."""
import math

NAN = float('nan')


def fit_hours(how, sunrise, sunnoon, delta):
    """Hours of minimum and maximum of one day."""
    if how == 'fix':
        return 7, 14
    lo = int(round(sunrise)) if sunrise <= sunnoon else 0      # sunrise before midnight
    if how == 'sun_loc':
        return lo, int(round(sunnoon)) + 2
    hi = int(round(sunnoon + delta))
    if lo > hi:
        hi = int(round(sunnoon)) + 2
    return lo, hi


def sine(days, locs, method='sine_min_max', mod=False):
    """days: list of (tmin, tmax, tmean); locs: list of (hour of minimum, hour of maximum)."""
    out = []
    n = len(days)
    for d in range(n):
        tmin, tmax, tmean = days[d]
        lo, hi = locs[d]
        before = days[d - 1] if d > 0 else days[d]
        after = days[d + 1] if d < n - 1 else days[d]
        for h in range(24):
            if method == 'sine_mean':
                out.append(tmean + (tmax - tmin) / 2 * math.cos(2 * math.pi / 24 * (h - hi)))
                continue
            lower = tmin if h < hi else after[0]
            upper = before[1] if h < lo else tmax
            if not mod:
                arg = 2 * math.pi / 24 * (h - hi)
            elif h >= hi:
                arg = math.pi * (h - hi) / (24 - (hi - lo))
            elif h <= lo:
                arg = math.pi * (24 - hi + h) / (24 - (hi - lo))
            else:
                arg = 1.25 * math.pi + 0.75 * math.pi * (h - lo) / (hi - lo)
            out.append((lower + upper) / 2 + (upper - lower) / 2 * math.cos(arg))
    return out


def polar(days, locs, is_polar, method='sine_min_max', mod=False):
    """As sine(), with polar nights; None where the model defines no value."""
    base = sine(days, locs, method, mod)
    n = len(days)
    if not any(is_polar):
        return base
    v = list(base)
    for d in range(n):
        if is_polar[d]:
            v[24 * d:24 * d + 24] = [None] * 24
            before = days[d - 1] if d > 0 else days[d]
            warming = before[0] + before[1] <= days[d][0] + days[d][1]
            v[24 * d + 6] = days[d][0] if warming else days[d][1]
            v[24 * d + 18] = days[d][1] if warming else days[d][0]
        else:
            if d > 0 and is_polar[d - 1]:
                lo = locs[d][0]
                v[24 * d:24 * d + lo] = [None] * lo
                v[24 * d + lo] = days[d][0]
            if d < n - 1 and is_polar[d + 1]:
                hi = locs[d][1]
                v[24 * d + hi + 1:24 * d + 24] = [None] * (23 - hi)
    known = [i for i, x in enumerate(v) if x is not None]
    out = []
    k = 0
    for i, x in enumerate(v):
        if x is not None:
            out.append(x)
            k = i
        elif i < known[0]:
            out.append(None)
        elif i > known[-1]:
            out.append(v[known[-1]])
        else:
            j = i
            while v[j] is None:
                j += 1
            out.append(v[k] + (v[j] - v[k]) * (i - k) / (j - k))
    return out
