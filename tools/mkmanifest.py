#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property list and the property modules present."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(ROOT, 'tools', 'technique.json')))
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'kv', 'props', pid.lower() + '.py')):
        t = TECH[pid]
        checks.append({'property': pid,
                       'quick_cmd': 'python3-vt /verif/run.py %s --tier quick' % pid,
                       'thorough_cmd': 'python3-vt /verif/run.py %s --tier thorough' % pid,
                       'technique': t[0], 'level': 'exploration', 'level_note': t[1]})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
m = {'version': 1,
     'setup_cmd': "python3-vt -c 'import hypothesis' && PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c 'import katcp'",
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: every check drives the public API. Violations are shrunk by Hypothesis; replay with run.py ID --replay FILE.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
