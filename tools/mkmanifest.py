"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from larchsa import props  # noqa: E402
ids = [json.loads(x)['id'] for x in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
exec(open(os.path.join(HERE, 'tools', 'na.py')).read())
checks = []
for i in ids:
    if i not in props.REGISTRY:
        continue
    r = props.REGISTRY[i]
    checks.append({
        'property': i,
        'quick_cmd': 'python3 -m larchsa.check %s --tier quick' % i,
        'thorough_cmd': 'python3 -m larchsa.check %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': r.technique,
        'level': 'other',
        'level_note': r.note,
    })
na = [{'property': i, 'reason': NA.get(i, 'no check is built for it yet')}
      for i in ids if i not in props.REGISTRY]
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
     'not_applicable': na,
     'notes': 'larchsa is an abstract interpreter for the Python source of '
              'liblarch; nothing of /repo is executed.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
