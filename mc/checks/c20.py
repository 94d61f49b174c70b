"""C20: reproducible random results, deterministic methods leave the generator alone."""
import hashlib
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import casc, fix
from ..repo import REPO, melodist
from ..snap import snap, where
from . import c19

RULE = ('choice = seed, operation, operation before seeding, operation between; results, generator states and '
        'digests of fresh processes with other hash seeds are compared exactly')
BOUNDS = dict(operations='all public functions and station methods', seeds='3 seeds',
              histories='every operation before seeding and between two random operations',
              processes='4 hash seeds, fresh process each')
ASSUMPTIONS = ['random numbers come from the global generator of numpy']

SEEDS = [0, 1, 12345]
STATION = {'station ' + k: v for k, v in fix.OPS.items()}
RANDOM = {'wind random', 'precip cascade', 'precip cascade levels', 'precip cascade 5min',
          'precip cascade test', 'station', 'station wind random', 'station precip cascade'}
ALL = sorted(c19.CALLS) + sorted(STATION)
_in = {}


def run(name):
    if name in STATION:
        df = fix.daily()
        st = fix.station(df, temp=fix.hourly_temp(df))
        STATION[name][1](st)
        return st.data_disagg
    return c19.CALLS[name](c19.inputs('complete'))


def gen_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2], s[3], s[4]), random.getstate()


def brief(r):
    return hashlib.sha256(repr(snap(r)).encode()).hexdigest()


def scen_deterministic(ctx):
    name = ctx.pick([n for n in ALL if n not in RANDOM], 'operation')
    seed = ctx.pick(SEEDS[:2], 'seed')
    np.random.seed(seed)
    random.seed(seed)
    before = gen_state()
    r = run(name)
    ctx.check(gen_state() == before, '%s used the random generator', name)
    np.random.seed(99)
    d = where(snap(r), snap(run(name)))
    ctx.check(d is None, '%s depends on the random generator %s', name, d)
    ctx.observe(brief(r))


def scen_seeded(ctx):
    """Same seed, same result - whatever happened before."""
    name = ctx.pick(sorted(RANDOM), 'operation')
    seed = ctx.pick(SEEDS, 'seed')
    before = ctx.pick([None] + (ALL if seed == SEEDS[0] or ctx.tier == 'thorough' else []), 'operation before')
    np.random.seed(seed)
    first = run(name)
    after_first = gen_state()[0]
    if before is not None:
        run(before)
        np.random.random(3)
    np.random.seed(seed)
    second = run(name)
    d = where(snap(first), snap(second))
    ctx.check(d is None, '%s with the same seed differs after %s %s', name, before, d)
    ctx.check(gen_state()[0] == after_first, '%s draws another number of random numbers', name)
    ctx.observe(brief(first))


def scen_stream(ctx):
    """Consecutive random disaggregations continue the stream, deterministic ones in between do not matter."""
    a = ctx.pick(sorted(RANDOM), 'first')
    b = ctx.pick(sorted(RANDOM), 'second')
    between = ctx.pick([None] + [n for n in ALL if n not in RANDOM][::1 if ctx.tier == 'thorough' else 9],
                       'between')
    np.random.seed(7)
    start = gen_state()[0]
    ra = run(a)
    mid = gen_state()[0]
    ctx.check(mid != start, '%s does not use the global generator', a)
    if between is not None:
        run(between)
    rb = run(b)
    end = gen_state()[0]
    ctx.check(end != mid and end != start, '%s reseeds the generator', b)
    if a == b:
        ctx.check(where(snap(ra), snap(rb)) is not None, 'two runs of %s give the same random numbers', a)
    # the second result follows from the state of the generator after the first
    np.random.seed(7)
    run(a)
    d = where(snap(rb), snap(run(b)))
    ctx.check(d is None, '%s after %s is not reproducible %s', b, a, d)
    other = np.random.RandomState(11)
    np.random.set_state(other.get_state())
    d = where(snap(rb), snap(run(b)))
    ctx.check(d is not None, '%s ignores the state of the generator', b)
    ctx.observe(brief(rb))


def scen_long(ctx):
    """Long series with many missing days."""
    n = ctx.pick([60, 420, 1200], 'days')
    miss = ctx.pick([2, 7, 5000], 'distance of missing days')
    method = ctx.pick([('precip', 'cascade'), ('wind', 'random'), ('precip', 'equal'), ('wind', 'equal')], 'method')
    df = fix.daily(n=n)
    df.iloc[10:, 3] *= 9.0         # more than a hundred millimetres
    df.iloc[3::miss] = np.nan

    def go():
        st = fix.station(df)
        getattr(st, 'disaggregate_' + {'precip': 'precipitation'}.get(method[0], method[0]))(method=method[1])
        return st.data_disagg[method[0]]

    np.random.seed(3)
    start = gen_state()
    a = go()
    mid = gen_state()
    b = go()
    end = gen_state()
    if method[1] == 'equal':
        ctx.check(start == mid == end, '%s %s uses the random generator', *method)
    else:
        ctx.check(where(snap(a), snap(b)) is not None and mid != end, 'two runs give the same random numbers')
        np.random.seed(3)
        ctx.check(where(snap(a), snap(go())) is None and gen_state() == mid, 'not reproducible')
        np.random.seed(4)
        ctx.check(where(snap(a), snap(go())) is not None, 'the seed does not matter')
    ctx.observe(brief(a))


def digests():
    out = {}
    for name in ALL:
        np.random.seed(5)
        out[name] = brief(run(name))
    return out


def scen_process(ctx):
    """A fresh process with another hash seed gives identical results."""
    h = ctx.pick(['0', '1', '77', '4242'], 'hash seed')
    env = dict(os.environ, PYTHONHASHSEED=h, PYTHONDONTWRITEBYTECODE='1', MC_REPO=REPO)
    out = subprocess.run([sys.executable, '-W', 'ignore', '-c',
                          'import json, os, sys\n'
                          'fd = os.dup(1); os.dup2(2, 1)\n'
                          'from mc.checks import c20\n'
                          'r = c20.digests(); sys.stdout.flush()\n'
                          'os.write(fd, json.dumps(r).encode())'],
                         cwd=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))),
                         env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=200)
    ctx.check(out.returncode == 0, 'fresh process failed')
    got = json.loads(out.stdout.decode())
    want = digests()
    for k in want:
        ctx.check(got[k] == want[k], '%s differs in a fresh process (hash seed %s)', k, h)
    ctx.observe(sorted(got.items()))


def scenarios(tier):
    return [('process', scen_process), ('deterministic', scen_deterministic), ('seeded', scen_seeded),
            ('stream', scen_stream), ('long', scen_long)]
