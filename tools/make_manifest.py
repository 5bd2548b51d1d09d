"""Writes /verif/MANIFEST.json: one entry per check module that exists."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        t, n = NOTES[i]
        checks.append({'property': i, 'quick_cmd': f'/opt/venv/bin/python run.py {i}',
                       'thorough_cmd': f'/opt/venv/bin/python run.py {i} --tier thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'exploration',
                       'level_note': n + ' Sampling: agreement on the cases generated, no proof of absence. Trusts '
                                         'numpy, scipy, CPython and the oracle code in /verif.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import numpy, scipy, pandas"', 'checks': checks,
           'not_applicable': na,
           'notes': 'run.py <ID> imports the package from /repo\'s working tree (pure Python: nothing to build, cached '
                    'bytecode is bypassed). No hooks in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
