"""Writes MANIFEST.json for the checks present in mc/."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'notes.json')))
checks = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(ROOT, 'mc', i.lower() + '.py')):
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'bash check.sh %s quick' % i,
        'thorough_cmd': 'bash check.sh %s thorough' % i,
        'technique': NOTES[i]['technique'],
        'level': 'model_checking',
        'level_note': NOTES[i]['note'],
        'evidence_file': 'evidence/%s.json' % i,
    })
have = {c['property'] for c in checks}
m = {'version': 1,
     'setup_cmd': "/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo'); import casadi, numpy, casadi_extras\"",
     'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'no check yet'} for p in props if p['id'] not in have],
     'notes': 'All checks run the real code of /repo (pure Python, nothing to build). No hooks in /repo.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
