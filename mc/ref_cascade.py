"""Plain reference model of the multiplicative random cascade (Olsson, 1998)."""
import math

import numpy as np

STARTING, ENCLOSED, ENDING, ISOLATED = range(4)
# upper class boundaries of the weights as used by melodist, and the class centres
UPPER = [0.1429, 0.2857, 0.4286, 0.5714, 0.7143, 0.8571, 1.0]
CENTRE = [u - 1.0 / 14.0 for u in UPPER]


def position(values, i):
    """Position class of a wet interval from the wetness of its two neighbours."""
    before = i > 0 and values[i - 1] > 0
    after = i < len(values) - 1 and values[i + 1] > 0
    if before and after:
        return ENCLOSED
    if before:
        return ENDING
    if after:
        return STARTING
    return ISOLATED


def branch(values, threshold, action):
    """One cascade level; action(intensity class, position class) -> '01', '10' or 0..6."""
    out = []
    for i, v in enumerate(values):
        if v > 0:
            a = action(1 if v > threshold else 0, position(values, i))
            if a == '01':
                out += [0.0, v]
            elif a == '10':
                out += [v, 0.0]
            else:
                out += [CENTRE[a] * v, (1.0 - CENTRE[a]) * v]
        else:
            out += [0.0, 0.0]
    return out


def to_hours(boxes):
    """32 boxes of 45 minutes per day -> 24 hours (uniform within a box)."""
    quarters = [b / 3.0 for b in boxes for _ in range(3)]
    return [math.fsum(quarters[i:i + 4]) for i in range(0, len(quarters), 4)]


def to_5min(boxes, per_day):
    """Boxes are assigned to the 5 minute interval in which they start."""
    n = len(boxes) // per_day
    width = 86400.0 / per_day
    out = [0.0] * (n * 288)
    for i, b in enumerate(boxes):
        day, k = divmod(i, per_day)
        out[day * 288 + int(k * width // 300)] += b
    return out


def estimate(values, percentile):
    """Branching statistics of the aggregation of `values` by two; None where undefined.

    returns dict(p01, p10, pxx (2, 4), wxx (7, 2, 4), threshold, undefined) and the
    aggregated values.
    """
    agg = [values[2 * i] + values[2 * i + 1] for i in range(len(values) // 2)]
    wet = sorted(v for v in agg if v > 0)
    # linear interpolation between closest ranks
    pos = (len(wet) - 1) * percentile / 100.0
    lo = int(math.floor(pos))
    hi = min(lo + 1, len(wet) - 1)
    threshold = wet[lo] + (wet[hi] - wet[lo]) * (pos - lo)
    n = np.zeros((2, 4))
    c = {k: np.zeros((2, 4)) for k in ('p01', 'p10', 'pxx')}
    w = np.zeros((7, 2, 4))
    for i, v in enumerate(agg):
        if not v > 0:
            continue
        k = (1 if v > threshold else 0, position(agg, i))
        a, b = values[2 * i], values[2 * i + 1]
        n[k] += 1
        if a > 0 and b > 0:
            c['pxx'][k] += 1
            x = a / (a + b)
            for j, u in enumerate(UPPER):
                if x <= u:
                    w[(j,) + k] += 1
                    break
        elif a > 0:
            c['p10'][k] += 1
        else:
            c['p01'][k] += 1
    undefined = bool((n == 0).any())
    nxx = c['pxx'].copy()
    with np.errstate(all='ignore'):
        for k in c:
            c[k] = c[k] / n
        w = w / nxx
    return dict(c, wxx=w, nxx=nxx, threshold=threshold, undefined=undefined), agg

# the built-in default table
DEFAULT_P01 = [[0.576724636119866, 0.238722774405744, 0.166532122130638, 0.393474644666218],
 [0.303345245644811, 0.0490956843857575, 0.0392403031072856, 0.228441890034704]]
DEFAULT_P10 = [[0.158217002255554, 0.256581140990052, 0.557852226779526, 0.422638238585814],
 [0.0439831163244427, 0.0474928027621488, 0.303675296728195, 0.217512052135178]]
DEFAULT_PXX = [[0.26505836162458, 0.504696084604205, 0.275615651089836, 0.183887116747968],
 [0.652671638030746, 0.903411512852094, 0.657084400164519, 0.554046057830118]]
DEFAULT_WXX = [[[0.188389148850583, 0.080683645398419, 0.0698113025807722, 0.0621499191745602],
  [0.240993281622128, 0.0831019646519721, 0.0415130545715575, 0.155284541403192]],
 [[0.190128959522795, 0.129220679033862, 0.0932213021787505, 0.193080698516532],
  [0.196379692358065, 0.108549414860949, 0.0592714297292217, 0.0421945385836429]],
 [[0.163043672107111, 0.152063537378127, 0.102823783410167, 0.0906028835221283],
  [0.186579466868095, 0.189705690316132, 0.0990207345993082, 0.107831389238912]],
 [[0.197765724699431, 0.220046257566978, 0.177876233348082, 0.261288786454262],
  [0.123823472714948, 0.220514673922285, 0.102486496386323, 0.101975538893918]],
 [[0.114435243444815, 0.170857634762767, 0.177327072603662, 0.135362730582518],
  [0.0939211776723413, 0.174291820501902, 0.125275822078525, 0.150842841725936]],
 [[0.0988683809545079, 0.152323481100248, 0.185606883566286, 0.167242856061538],
  [0.0760275616817939, 0.127275603247149, 0.202466168603738, 0.186580243138018]],
 [[0.0473688704207573, 0.0948047647595988, 0.19333342231228, 0.0902721256884624],
  [0.0822753470826286, 0.0965608324996108, 0.369966294031327, 0.255290907016382]]]
