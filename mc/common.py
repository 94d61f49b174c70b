"""Helpers shared by the checks: small domains, day frames, comparisons."""
import contextlib
import itertools

import numpy as np
import pandas as pd

NAN = float('nan')


def days(start, n):
    return pd.date_range(start, periods=n, freq='D')


def hours(start, n):
    return pd.date_range(start, periods=n, freq='h')


def hours_of(index):
    """All hours of the given days (independent of melodist's own index helpers)."""
    return pd.DatetimeIndex([d + pd.Timedelta(hours=h) for d in index for h in range(24)])


# the same calendar day, day of the year or day of the month in other years and months
SCATTERED = ['2014-06-03', '2014-06-04', '2014-07-03', '2015-06-03', '2015-06-04', '2016-06-02',
             '2016-06-03', '2024-06-03']


def scattered():
    return pd.DatetimeIndex(SCATTERED)


def debruijn(k, n):
    """Cyclic de Bruijn sequence over 0..k-1 of order n, unrolled by n - 1 symbols."""
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)

    db(1, 1)
    return seq + seq[:n - 1]


def words(alphabet, lengths):
    for n in lengths:
        yield from itertools.product(alphabet, repeat=n)


def same(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def first_diff(got, want, index=None, rtol=1e-9, atol=1e-9):
    got = np.asarray(got, dtype=float)
    want = np.asarray(want, dtype=float)
    if got.shape != want.shape:
        return 'shape %s, expected %s' % (got.shape, want.shape)
    bad = ~np.isclose(got, want, rtol=rtol, atol=atol, equal_nan=True)
    i = np.argwhere(bad)
    if not len(i):
        return None
    i = tuple(int(x) for x in i[0])
    where = ' at %s' % (index[i[0]] if index is not None else (i,))
    return '%d of %d values differ, first%s: got %r, expected %r' % (
        int(bad.sum()), got.size, where, got[i].item(), want[i].item())


def expect(ctx, got, want, what, index=None, rtol=1e-9, atol=1e-9):
    ctx.work += int(np.size(want))
    d = first_diff(got, want, index, rtol, atol)
    if d is not None:
        ctx.fail('%s: %s' % (what, d))


def expect_index(ctx, got, want, what):
    got = pd.DatetimeIndex(got)
    want = pd.DatetimeIndex(want)
    ctx.work += len(want)
    if len(got) != len(want) or not (np.asarray(got.asi8 if got.unit == want.unit else
                                                got.as_unit('ns').asi8) ==
                                     np.asarray(want.asi8 if got.unit == want.unit else
                                                want.as_unit('ns').asi8)).all():
        ctx.fail('%s: time stamps differ: got %d (%s .. %s), expected %d (%s .. %s)' % (
            what, len(got), got[0] if len(got) else None, got[-1] if len(got) else None,
            len(want), want[0] if len(want) else None, want[-1] if len(want) else None))


def per_day(values, n=24):
    return np.asarray(values, dtype=float).reshape(-1, n)


@contextlib.contextmanager
def scripted_random(source):
    """Every uniform random number drawn by the code under test is source() in [0, 1)."""
    r = np.random

    def arr(size):
        if size is None:
            return float(source())
        size = (size,) if np.isscalar(size) else tuple(size)
        out = np.empty(size)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = source()
        return out

    def random(size=None):
        return arr(size)

    def rand(*shape):
        return arr(shape if shape else None)

    def uniform(low=0.0, high=1.0, size=None):
        return low + (high - low) * arr(size)

    new = dict(random=random, random_sample=random, ranf=random, sample=random, rand=rand,
               uniform=uniform)
    old = {k: getattr(r, k) for k in new}
    try:
        for k, v in new.items():
            setattr(r, k, v)
        yield
    finally:
        for k, v in old.items():
            setattr(r, k, v)


def cyc(word):
    """Endless source repeating `word`, and a counter of draws."""
    state = dict(n=0)

    def source():
        v = word[state['n'] % len(word)]
        state['n'] += 1
        return v

    source.state = state
    return source


ONE = 1.0 - 2.0 ** -53      # largest number np.random.random() can return


def frame_equal(a, b):
    return (list(a.columns) == list(b.columns) and len(a) == len(b)
            and a.index.equals(b.index) and same(a.to_numpy(dtype=float), b.to_numpy(dtype=float),
                                                 rtol=0, atol=0))
