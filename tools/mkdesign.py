#!/usr/bin/env python3
"""Fill the lists of defects and planted changes into DESIGN.md (from DESIGN.in.md)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(open(root + '/known_findings.json'))
l = d if isinstance(d, list) else d['findings']
fx = '\n'.join('* %s `%s`: %s' % (x['property'], x['commit'], x['what'].split(' ', 3)[3]) for x in l if x.get('status') == 'fixed')
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(root + '/tools/caught.json')) if os.path.exists(root + '/tools/caught.json') else {}
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append('| %s: %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['property'], m['needs'], caught.get(i, '?')))
s = open(root + '/tools/DESIGN.in.md').read().replace('@FIXES@', fx).replace('@SEEDED@', '\n'.join(rows))
open(root + '/DESIGN.md', 'w').write(s)
