"""Regenerates MANIFEST.json from the check modules that exist."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    pid = p['id']
    if not os.path.exists(os.path.join(ROOT, 'mc', 'checks', pid.lower() + '.py')):
        missing.append(dict(property=pid, reason='no check built yet'))
        continue
    mod = importlib.import_module('mc.checks.' + pid.lower())
    checks.append(dict(
        property=pid,
        quick_cmd='bash run.sh %s --tier quick' % pid,
        thorough_cmd='bash run.sh %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique='explicit-state model checking of the real code (exhaustive bounded choice tree)',
        level='model_checking',
        level_note='Exhaustive within the stated bounds: ' + '; '.join(
            '%s: %s' % kv for kv in mod.BOUNDS.items()) + '. Assumes: ' + (
            '; '.join(getattr(mod, 'ASSUMPTIONS', [])) or 'nothing beyond numpy/pandas/scipy') + '.',
    ))
json.dump(dict(
    version=1,
    setup_cmd='bash setup.sh',
    checks=checks,
    not_applicable=missing,
    notes='No hooks: everything is driven through the public API of the working tree in /repo.',
), open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(missing), 'missing')
