#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from meta import P  # noqa: E402
try:
    from meta import NA
except ImportError:
    NA = {}
TECH = 'symbolic execution of the real Python code with z3 (every branch explored, assertions discharged by the SMT solver, counterexamples replayed on the real code)'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for pid in sorted(P):
        p = P[pid]
        assert len(p['title']) <= 80, pid
        assert p['statement'].count('. ') <= 2, (pid, p['statement'].count('. '))
        f.write(json.dumps(dict(
            id=pid, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         **(dict(observe_at=p['observe']) if p['observe'] else {}),
                         **(dict(state=p['state']) if p['state'] else {}), hook_needed=None))) + '\n')
checks = []
for pid in sorted(P):
    if pid in NA or not os.path.exists(os.path.join(ROOT, 'props', pid.lower() + '.py')):
        assert pid in NA, pid + ' has neither a check nor a reason'
        continue
    checks.append(dict(property=pid, quick_cmd='./check ' + pid, thorough_cmd='./check ' + pid + ' --thorough',
                       technique=TECH, level='model_checking', level_note=P[pid]['note']))
m = dict(version=1, setup_cmd='./check --setup', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='All checks share the engine in symx/; the scenarios per property are in props/. See DESIGN.md.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(NA), 'not applicable')
