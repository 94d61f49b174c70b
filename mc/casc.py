"""Building blocks for the cascade checks."""
import numpy as np

from .repo import melodist

CS = melodist.cascade.CascadeStatistics


def stats(p01, p10, pxx, wxx, threshold, percentile=50):
    s = CS()
    s.p01 = np.array(p01, dtype=float)
    s.p10 = np.array(p10, dtype=float)
    s.pxx = np.array(pxx, dtype=float)
    s.wxx = np.array(wxx, dtype=float)
    s.threshold = np.array(threshold, dtype=float)
    s.percentile = percentile
    return s


def policy_stats(policy, threshold):
    """Deterministic statistics: policy[(intensity, position)] is '01', '10' or 0..6."""
    p01 = np.zeros((2, 4))
    p10 = np.zeros((2, 4))
    pxx = np.zeros((2, 4))
    wxx = np.zeros((7, 2, 4))
    for i in range(2):
        for j in range(4):
            a = policy[i, j]
            if a == '01':
                p01[i, j] = 1
                wxx[:, i, j] = 1 / 7
            elif a == '10':
                p10[i, j] = 1
                wxx[:, i, j] = 1 / 7
            else:
                pxx[i, j] = 1
                wxx[a, i, j] = 1
    return stats(p01, p10, pxx, wxx, threshold)


def sample(threshold=None):
    s = CS()
    s.fill_with_sample_data()
    if threshold is not None:
        s.threshold = np.array(threshold, dtype=float)
    return s


def all_split(threshold):
    one = np.ones((2, 4))
    return stats(0 * one, 0 * one, one, np.full((7, 2, 4), 1 / 7), threshold)


def short_sum(threshold, share=0.1):
    """Cumulated weight probabilities end one ulp-ish below 1 (rounding of averaged statistics)."""
    one = np.ones((2, 4))
    w = np.full((7, 2, 4), share)
    w[6] = 1.0 - 6 * share - 4e-16
    return stats(0.0 * one, 0.0 * one, one, w, threshold)


def mixed(threshold):
    one = np.ones((2, 4))
    w = np.zeros((7, 2, 4))
    for k in range(7):
        w[k] = (k + 1) / 28.0
    return stats(0.25 * one, 0.25 * one, 0.5 * one, w, threshold)


THR5 = [0.4, 0.9, 1.7, 3.1, 6.3]
THR11 = [0.01, 0.02, 0.05, 0.1, 0.2, 0.4, 0.9, 1.7, 3.1, 6.3, 9.0]
