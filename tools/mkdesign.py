#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md (between the two markers) from the check modules and tools/why.json."""
import ast
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = '<!-- per-property part: written by tools/mkdesign.py -->', '<!-- end of the per-property part -->'
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
why = json.load(open(os.path.join(V, 'tools', 'why.json')))
out = [A, '']
for p in props:
    i = p['id']
    v = {}
    for n in ast.parse(open(os.path.join(V, 'checks', i.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'RULE', 'ASSUMPTIONS'):
            v[n.targets[0].id] = ast.literal_eval(n.value)
    out += ['### %s %s' % (i, p['title']), '',
            '* Oracle: %s.' % v['TECHNIQUE'],
            '* Generated, bounds, and when a case counts as non-trivial: %s.' % v['RULE'],
            '* Assumptions: %s.' % '; '.join(v['ASSUMPTIONS']),
            '* Beyond the tests: %s' % why[i]['why']]
    if why[i].get('limits'):
        out.append('* Limits: %s' % why[i]['limits'])
    out.append('')
out.append(B)
f = os.path.join(V, 'DESIGN.md')
s = open(f).read()
s = re.sub(re.escape(A) + '.*' + re.escape(B), lambda m: '\n'.join(out), s, flags=re.S)
open(f, 'w').write(s)
