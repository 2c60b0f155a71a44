"""Write MANIFEST.json from properties.jsonl and the META of the checks."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import run as R     # noqa: E402
PY = '/opt/venv/bin/python'
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    if os.path.exists(f):
        m = R.spec(p['id'])
        checks.append({
            'property': p['id'],
            'quick_cmd': '%s run.py check %s' % (PY, p['id']),
            'thorough_cmd': '%s run.py check %s --tier thorough' % (PY, p['id']),
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': m['technique'],
            'level': 'exploration',
            'level_note': m['note'],
        })
    else:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': PY + ' run.py setup', 'checks': checks,
           'not_applicable': na,
           'notes': 'All checks are generated-input searches (Hypothesis) run in '
                    'separate processes per configuration; run.py replay FILE '
                    'repeats a recorded failure.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
