#!/usr/bin/env python3
"""book.py tech ID TECHNIQUE NOTE | book.py fixed ID COMMIT WHAT | book.py known ID CLASS WHAT  (bookkeeping helper)"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
k, a = sys.argv[1], sys.argv[2:]
if k == 'tech':
    p = root + '/tools/technique.json'
    d = json.load(open(p))
    d[a[0]] = [a[1], a[2]]
    json.dump(d, open(p, 'w'), indent=1)
elif k == 'fixed':
    p = root + '/known_findings.json'
    d = json.load(open(p))
    d.append({'property': a[0], 'status': 'fixed', 'commit': a[1], 'what': 'fixed: property=%s %s %s' % tuple(a)}) if isinstance(d, list) else \
        d['findings'].append({'property': a[0], 'status': 'fixed', 'commit': a[1], 'what': 'fixed: property=%s %s %s' % tuple(a)})
    json.dump(d, open(p, 'w'), indent=1)
elif k == 'known':          # known ID SIG WHAT CASE-JSON
    p = root + '/known_findings.json'
    d = json.load(open(p))
    d.append({'property': a[0], 'status': 'known', 'sig': a[1], 'what': a[2], 'case': json.loads(a[3])})
    json.dump(d, open(p, 'w'), indent=1)
