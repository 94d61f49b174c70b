"""A small stateless model checker.

A *scenario* is a function ``fn(ctx)``.  Every nondeterministic decision of the
closed system (an input value, an operation, an answer of the environment such as
a random number or the order of a directory listing) is taken through
``ctx.choose``.  The explorer re-executes the scenario on the real code for every
sequence of choices (depth first), optionally bounding the number of deviations
from the default answer (choice 0).  The scenario compares the implementation with
an oracle and calls ``ctx.fail`` (or raises) if they disagree.

Nothing is sampled: a run either covers the complete choice tree within the stated
bounds, or it says so (``exhaustive`` false in the evidence).
"""
import hashlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

EXEC_TIMEOUT_S = 240
CHUNK_S = 0.5
CHUNK = 64           # executions per work item before unexplored prefixes are handed back
MAX_VIOLATIONS = 5   # stop after that many (the check fails anyway)


class Violation(Exception):
    pass


class Divergence(Exception):
    """A replayed prefix met another choice point than before: uncontrolled nondeterminism."""


class Abandon(Exception):
    """The combination of choices is outside the domain of the property."""


class _Timeout(BaseException):
    pass


class Ctx:
    def __init__(self, prefix, tier, bound=None):
        self.prefix = list(prefix)
        self.tier = tier
        self.bound = bound
        self.points = []        # (n, label, deviating)
        self.choices = []
        self.deviations = 0
        self.log = []
        self.states = set()
        self.work = 0           # elementary comparisons with the oracle
        self.coverage = {}

    # -- decisions ------------------------------------------------------------------
    def choose(self, n, label='', dev=False):
        """Returns one of 0..n-1.  With dev=True every choice except 0 is a deviation."""
        assert n >= 1
        i = len(self.choices)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence('choice %d (%s): %d of %d' % (i, label, c, n))
        else:
            c = 0
        self.points.append((n, label, dev))
        self.choices.append(c)
        if dev and c:
            self.deviations += 1
        return c

    def pick(self, options, label='', dev=False):
        options = list(options)
        c = self.choose(len(options), label, dev)
        self.log.append((label, _short(options[c])))
        return options[c]

    # -- observations ---------------------------------------------------------------
    def observe(self, *values):
        """Records the observable state reached (canonical digest)."""
        self.states.add(digest(*values))

    def cover(self, **kw):
        for k, v in kw.items():
            self.coverage[k] = self.coverage.get(k, 0) + v

    def note(self, label, value):
        self.log.append((label, _short(value)))

    # -- verdicts -------------------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        self.work += 1
        if not cond:
            raise Violation(msg % args if args else msg)


def _short(v):
    s = repr(v)
    return s if len(s) <= 400 else s[:400] + '...'


def digest(*values):
    import numpy as np
    import pandas as pd

    h = hashlib.blake2b(digest_size=12)

    def feed(v):
        if isinstance(v, (pd.Series, pd.DataFrame)):
            if isinstance(v, pd.DataFrame):
                h.update(repr(list(v.columns)).encode())
            try:
                h.update(np.asarray(v.index.values.astype('i8')).tobytes())
            except (ValueError, TypeError):
                h.update(repr(list(v.index)).encode())
            feed(v.to_numpy())
        elif isinstance(v, np.ndarray):
            if v.dtype.kind == 'f':
                # relative rounding: representation noise does not make a new state
                with np.errstate(all='ignore'):
                    h.update(np.char.mod('%.9g', v).tobytes() if v.size < 200 else
                             np.round(v, 9).tobytes())
            elif v.dtype.kind == 'O':
                h.update(repr(v.tolist()).encode())
            else:
                h.update(v.tobytes())
        elif isinstance(v, (list, tuple)):
            h.update(b'(%d' % len(v))
            for x in v:
                feed(x)
        elif isinstance(v, dict):
            for k in v:
                h.update(repr(k).encode())
                feed(v[k])
        else:
            h.update(repr(v).encode())

    for v in values:
        feed(v)
    return h.hexdigest()


def _alarm(signum, frame):
    raise _Timeout()


def run_one(fn, prefix, tier, bound=None):
    """One execution of the real code; returns (ctx, error or None)."""
    ctx = Ctx(prefix, tier, bound)
    err = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(EXEC_TIMEOUT_S)
    try:
        fn(ctx)
    except Abandon:
        pass
    except Divergence as e:
        err = 'the same choices took another path than before: %s' % e
    except Violation as e:
        err = str(e)
    except _Timeout:
        err = 'no result within %d s' % EXEC_TIMEOUT_S
    except Exception as e:
        err = 'unexpected %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-6))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx, err


_SCEN = {}
_TIER = 'quick'


def _explore_chunk(item):
    """Depth-first exploration of the subtree below `prefix`, at most CHUNK executions."""
    name, prefixes = item
    fn, bound = _SCEN[name]
    stack = list(prefixes)
    out = dict(name=name, execs=0, transitions=0, states=set(), work=0, violations=[],
               coverage={}, left=[], sample=None, outcomes=0)
    t0 = time.time()
    while stack and out['execs'] < CHUNK and (time.time() - t0 < CHUNK_S or not out['execs']):
        prefix = stack.pop()
        ctx, err = run_one(fn, prefix, _TIER, bound)
        out['execs'] += 1
        out['transitions'] += len(ctx.choices) - max(len(prefix) - 1, 0)
        out['states'] |= ctx.states
        out['work'] += ctx.work
        for k, v in ctx.coverage.items():
            out['coverage'][k] = out['coverage'].get(k, 0) + v
        if out['sample'] is None:
            out['sample'] = dict(scenario=name, choices=list(ctx.choices),
                                 trace=[list(x) for x in ctx.log[:12]])
        if err is not None:
            out['violations'].append(dict(scenario=name, choices=list(ctx.choices), message=err,
                                          trace=[list(x) for x in ctx.log]))
            if len(out['violations']) >= MAX_VIOLATIONS:
                break
        # alternatives of every choice point beyond the prefix
        devs = [0]
        for (n, _, dev), c in zip(ctx.points, ctx.choices):
            devs.append(devs[-1] + (1 if dev and c else 0))
        for i in range(len(ctx.points) - 1, len(prefix) - 1, -1):
            n, _, dev = ctx.points[i]
            if bound is not None and dev and devs[i] + 1 > bound:
                continue
            for alt in range(n - 1, 0, -1):
                stack.append(ctx.choices[:i] + [alt])
    out['left'] = stack
    return out


class Result:
    def __init__(self):
        self.execs = 0
        self.transitions = 0
        self.states = set()
        self.work = 0
        self.violations = []
        self.coverage = {}
        self.samples = []
        self.per_scenario = {}
        self.exhaustive = True
        self.replays_identical = 0


def explore(scenarios, tier, workers=None, deadline=None):
    """scenarios: list of (name, fn) or (name, fn, deviation bound)."""
    global _TIER
    _TIER = tier
    res = Result()
    _SCEN.clear()
    for s in scenarios:
        assert s[0] not in _SCEN, s[0]
        _SCEN[s[0]] = (s[1], s[2] if len(s) > 2 else None)

    # own every source of nondeterminism, and show it: the default execution of every
    # scenario is run twice and must reach the same states
    for name, (fn, bound) in _SCEN.items():
        a, ea = run_one(fn, [], tier, bound)
        if ea is None:
            b, eb = run_one(fn, a.choices, tier, bound)
            if eb is None:
                if a.states != b.states or a.points != b.points:
                    res.violations.append(dict(
                        scenario=name, choices=list(a.choices), trace=[list(x) for x in a.log],
                        message='the same choices gave different observable results '
                                '(hidden state or uncontrolled nondeterminism)'))
                else:
                    res.replays_identical += 1

    pending = [(name, [[]]) for name in _SCEN]
    workers = workers or int(os.environ.get('MC_WORKERS', '0')) or min(8, os.cpu_count() or 1)

    def absorb(out):
        res.execs += out['execs']
        res.transitions += out['transitions']
        res.states |= {(out['name'], s) for s in out['states']}
        res.work += out['work']
        res.violations += out['violations']
        ps = res.per_scenario.setdefault(out['name'], dict(executions=0, transitions=0))
        ps['executions'] += out['execs']
        ps['transitions'] += out['transitions']
        for k, v in out['coverage'].items():
            res.coverage[k] = res.coverage.get(k, 0) + v
        if len(res.samples) < 6 and ps['executions'] == out['execs']:
            res.samples.append(out['sample'])
        left = out['left']
        if left:
            # hand the unexplored subtrees back in several parts
            parts = min(len(left), 8)
            for k in range(parts):
                pending.append((out['name'], left[k::parts]))

    if workers == 1 or os.environ.get('MC_SERIAL'):
        while pending and len(res.violations) < MAX_VIOLATIONS:
            if deadline and time.time() > deadline:
                res.exhaustive = False
                break
            absorb(_explore_chunk(pending.pop()))
    else:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(workers) as pool:
            running = []
            while (pending or running):
                if len(res.violations) >= MAX_VIOLATIONS:
                    break
                if deadline and time.time() > deadline:
                    res.exhaustive = False
                    break
                while pending and len(running) < workers * 2:
                    running.append(pool.apply_async(_explore_chunk, (pending.pop(0),)))
                done = [r for r in running if r.ready()]
                if not done:
                    time.sleep(0.003)
                    continue
                for r in done:
                    running.remove(r)
                    absorb(r.get())
            pool.terminate()
    return res


def replay(scenarios, scenario, choices, tier):
    for s in scenarios:
        if s[0] == scenario:
            return run_one(s[1], choices, tier, s[2] if len(s) > 2 else None)
    raise SystemExit('unknown scenario %r' % scenario)
