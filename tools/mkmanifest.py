#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and harness/props."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('symbolic execution of the Python source with z3 (bounded), '
        'counterexamples replayed on the real code')
NOTE = ('Real tzcompiler code instrumented from /repo at run time and run on '
        'symbolic TZ text; z3 decides every assertion on every path inside '
        'the bounds written in the evidence file. Outside: %s. Assumes the '
        'acetime package stub, in-memory files and silent logging.')
props = [json.loads(x) for x in open(HERE + '/properties.jsonl') if x.strip()]
checks, na = [], []
for p in props:
    pid = p['id']
    path = HERE + '/harness/props/%s.py' % pid.lower()
    if not os.path.exists(path):
        na.append(dict(property=pid, reason='check not built yet'))
        continue
    src = open(path).read()
    out = ''
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and getattr(
                node.targets[0], 'id', '') == 'OUTSIDE':
            out = ast.literal_eval(node.value)
    checks.append(dict(
        property=pid,
        quick_cmd='python3-vt -m harness.run %s quick' % pid,
        thorough_cmd='python3-vt -m harness.run %s thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=TECH, level='model_checking', level_note=NOTE % out))
m = dict(version=1, setup_cmd='python3-vt tools/selftest.py', checks=checks,
         not_applicable=na,
         notes='See DESIGN.md. No hooks are needed in /repo.')
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
