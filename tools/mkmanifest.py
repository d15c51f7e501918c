#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import ast
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        continue
    src = open(os.path.join(V, 'checks', i.lower() + '.py')).read()
    tech = 'property-based testing (Hypothesis-generated cases, shrinking): '
    how = [ast.literal_eval(n.value) for n in ast.parse(src).body
           if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'TECHNIQUE']
    tech += how[0] if how else 'comparison with an explicit oracle'
    checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=tech, level='exploration',
                       level_note='generated-input search within the bounds stated in the evidence rule and DESIGN.md; '
                                  'no claim beyond the cases run'))
claimed = {c['property'] for c in checks}
na = [dict(property=p['id'], reason='check not built yet') for p in props if p['id'] not in claimed]
m = dict(version=1, setup_cmd='./check setup', checks=checks,
         not_applicable=na, notes='No hooks in /repo; the fix: commits there are listed in known_findings.txt.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
