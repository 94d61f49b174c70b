"""Runs the check of one property.

usage: python -m mc.run C01 [--tier quick|thorough] [--replay FILE]
"""
import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(ROOT, 'evidence')


def known_findings(pid):
    """Entries of KNOWN_FINDINGS.txt: 'known: property=<id> key=<scenario/signature> <text>'."""
    out = {}
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % pid):
                rest = line.strip().split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                assert key.startswith('key=')
                out[key[4:]] = text
    return out


def write_replay(pid, k, v):
    d = os.path.join(EVIDENCE, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%d.json' % (pid, k))
    with open(path, 'w') as f:
        json.dump(dict(property=pid, how='bash run.sh %s --replay %s' % (pid, path), **v), f,
                  indent=1, default=str)
    return path


def raised_by_repo(e):
    from . import repo

    top = os.path.dirname(os.path.abspath(repo.melodist.__file__)) + os.sep
    return any(os.path.abspath(f.filename).startswith(top)
               for f in traceback.extract_tb(e.__traceback__))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    args = ap.parse_args()
    pid = args.property
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)

    from . import core

    try:
        from . import repo  # noqa: F401  (imports the code under test)
    except Exception as e:
        path = write_replay(pid, 0, dict(message='melodist cannot be imported: %r' % e,
                                         trace=traceback.format_exc()))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        traceback.print_exc()
        return 1

    try:
        mod = importlib.import_module('mc.checks.' + pid.lower())
        prepared = mod.scenarios(args.tier)
    except Exception as e:
        if not raised_by_repo(e):
            raise
        path = write_replay(pid, 0, dict(message='melodist fails while the check is prepared: %r' % e,
                                         trace=traceback.format_exc()))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        traceback.print_exc()
        return 1

    if args.replay:
        r = json.load(open(args.replay))
        ctx, err = core.replay(mod.scenarios(r.get('tier', args.tier)), r['scenario'],
                               r['choices'], r.get('tier', args.tier))
        for x in ctx.log:
            print('  %s = %s' % tuple(x))
        print('reproduced: ' + err if err else 'no violation')
        return 1 if err else 0

    # the code under test prints diagnostics; keep stdout for the verdict
    sys.stdout.flush()
    saved = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    limit = 3 * 3600 if args.tier == 'thorough' else 780
    try:
        res = core.explore(prepared, args.tier, deadline=t0 + limit)
        if hasattr(mod, 'extra'):
            mod.extra(args.tier, res)
    finally:
        sys.stdout.flush()
        os.dup2(saved, 1)

    known = known_findings(pid)
    fresh = []
    for v in res.violations:
        key = v.get('key')
        if key is not None and key in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
        else:
            fresh.append(v)

    wall = time.time() - t0
    coverage = dict(
        states=len(res.states),
        transitions=res.transitions,
        traces_validated_against_impl=res.execs,
        oracle_comparisons=res.work,
        default_executions_replayed_identically=res.replays_identical,
        exhaustive=bool(res.exhaustive and not fresh),
        bounds=mod.BOUNDS,
        rule=mod.RULE,
        per_scenario=res.per_scenario,
        samples=res.samples[:6],
        **res.coverage,
    )
    evidence = dict(
        property=pid,
        tier=args.tier,
        seed=seed,
        level='model_checking',
        coverage=coverage,
        assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2),
        violations=len(fresh),
    )
    with open(os.path.join(EVIDENCE, pid + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)

    print('%s %s: %d executions, %d transitions, %d distinct observed states, %d comparisons, '
          '%.1f s%s' % (pid, args.tier, res.execs, res.transitions, len(res.states), res.work, wall,
                        '' if res.exhaustive else ' (time limit reached, not exhaustive)'))
    for k, v in enumerate(fresh[:5]):
        v = dict(v, tier=args.tier)
        path = write_replay(pid, k, v)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        print('  scenario %s, choices %s' % (v['scenario'], v['choices']))
        for line in v['message'].splitlines()[:12]:
            print('  ' + line)
    return 1 if fresh else 0


def in_scratch():
    """All files of the run are in one directory, removed also if worker processes end early."""
    own, d = os.getpid(), tempfile.mkdtemp(prefix='mc-run-')
    tempfile.tempdir = d
    try:
        return main()
    finally:
        if os.getpid() == own:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(in_scratch())
