#!/usr/bin/env python3
"""Writes the per-property table of DESIGN.md from properties.jsonl, the
harness modules and the texts in tools/design_notes.json."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
notes = json.load(open(HERE + '/tools/design_notes.json'))
props = [json.loads(x) for x in open(HERE + '/properties.jsonl') if x.strip()]
out = []
for p in props:
    pid = p['id']
    d = dict(BOUNDS='', OUTSIDE='', ASSUMPTIONS=[])
    for node in ast.parse(open('%s/harness/props/%s.py' % (
            HERE, pid.lower())).read()).body:
        name = isinstance(node, ast.Assign) and getattr(
            node.targets[0], 'id', '')
        if name in d:
            d[name] = ast.literal_eval(node.value)
    n = notes[pid]
    out.append('### %s %s\n' % (pid, p['title']))
    out.append('* Decided by: ' + n['how'])
    out.append('* Oracle: ' + n['oracle'])
    out.append('* Bounds: %s.' % d['BOUNDS'])
    out.append('* Outside: %s.' % d['OUTSIDE'])
    for a in d['ASSUMPTIONS']:
        out.append('* Assumes: %s.' % a)
    out.append('* Why tests cannot: ' + p['why_tests_cant'])
    out.append('* Cost (quick, 8 cores): about %s.' % n['cost'])
    out.append('')
path = HERE + '/DESIGN.md'
text = open(path).read()
a, b = '<!-- properties -->\n', '<!-- end -->\n'
i, j = text.index(a) + len(a), text.index(b)
open(path, 'w').write(text[:i] + '\n' + '\n'.join(out) + text[j:])
