#!/usr/bin/env python3
"""writes DESIGN.md"""
import ast
import glob
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
from how import HOW  # noqa: E402
from meta import P  # noqa: E402
try:
    from meta import NA
except ImportError:
    NA = {}
rd = lambda f: open(os.path.join(R, 'tools', f)).read()
kf = json.load(open(os.path.join(R, 'known_findings.json')))
out = [rd('design_head.md'), '\n## 3. Properties\n']
for p in sorted(P):
    m = P[p]
    out.append('\n### %s %s\n' % (p, m['title']))
    out.append(m['statement'] + '\n')
    if p in NA:
        out.append('\n*Not claimed:* ' + NA[p] + '\n')
        continue
    t = ast.parse(open(os.path.join(R, 'props', p.lower() + '.py')).read())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS')}
    out.append('\n* *decided by*: ' + HOW[p] + '\n')
    out.append('* *bounds*: ' + c.get('BOUNDS', '') + '\n')
    if c.get('ASSUMPTIONS'):
        out.append('* *assumed*: ' + '; '.join(c['ASSUMPTIONS']) + '\n')
    out.append('* *why tests do not settle it*: ' + m['why'] + '\n')
    out.append('* *anchors*: ' + '; '.join('%s (%s)' % (b, a) for a, b in m['mech']) + '\n')
    for f in kf['findings']:
        if f['property'] == p:
            out.append('* *known finding* %s: %s\n' % (f['id'], f['what']))
    fx = [f.split(' ', 2)[2] for f in kf['fixed'] if f.startswith('fixed: property=%s ' % p)]
    if fx:
        out.append('* *repaired*: ' + '; '.join('%s (`%s`)' % (f.split(' ', 1)[1], f.split(' ', 1)[0]) for f in fx) + '\n')
rows = ['| change | property | needs | caught |', '|---|---|---|---|']
caught = json.load(open(os.path.join(R, 'tools', 'caught.json'))) if os.path.exists(os.path.join(R, 'tools', 'caught.json')) else {}
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append('| %s: %s | %s | %s | %s |' % (i, j['what_it_breaks'].replace('|', '/'), j['property'], j['needs'].replace('|', '/'), caught.get(i, '?')))
out.append(rd('design_tail.md').replace('CATCHTABLE', '\n'.join(rows)))
open(os.path.join(R, 'DESIGN.md'), 'w').write(''.join(out))
