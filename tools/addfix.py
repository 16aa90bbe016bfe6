#!/usr/bin/env python3
"""addfix.py <commit> <property>...: record repairs in known_findings.json (message taken from the commit)"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
for a in sys.argv[1:]:
    h, pid = a.split(':')
    m = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h %s', h], text=True).strip()
    h, m = m.split(' fix: ')
    line = 'fixed: property=%s %s %s' % (pid, h, m)
    d['fixed'] = [x for x in d['fixed'] if (' %s ' % h) not in x] + [line]
json.dump(d, open(p, 'w'), indent=1)
