#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, design_tail.md, properties.jsonl, the check modules and quick wall times."""
import ast
import glob
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, 'tools')
cost = json.load(open(os.path.join(T, 'cost.json'))) if os.path.exists(os.path.join(T, 'cost.json')) else {}


def consts(path):
    t = ast.parse(open(path).read())
    d = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'RULE', 'ASSUMPTIONS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


out = [open(os.path.join(T, 'design_head.md')).read().rstrip() + '\n']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    c = consts(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py'))
    out.append('### %s. %s\n' % (p['id'], p['title']))
    out.append('*Specified.* %s\n' % p['statement'])
    out.append('*Anchors.* %s\n' % ', '.join('`%s`' % f for f in p['anchors']['files']))
    out.append('*Enumerated (%s).* %s\n' % (c['LEVEL'], c['RULE'][0].upper() + c['RULE'][1:]))
    out.append('*Bounds and assumptions.* %s.\n' % '; '.join(a.rstrip('.') for a in c['ASSUMPTIONS']))
    out.append('*Why tests cannot settle it.* %s\n' % p['why_tests_cant'])
    if p['id'] in cost:
        out.append('*Cost (quick).* %s\n' % cost[p['id']])
out.append(open(os.path.join(T, 'design_tail.md')).read().rstrip() + '\n')
out.append('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    out.append('| %s | %s | %s | %s quick |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'), m['property']))
camp = os.path.join(T, 'design_campaign.md')
if os.path.exists(camp):
    out.append('\n' + open(camp).read().rstrip())
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
