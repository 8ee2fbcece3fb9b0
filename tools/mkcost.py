#!/usr/bin/env python3
"""Writes tools/cost.json from evidence/*.json of a quick run on the unchanged tree."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(os.path.join(HERE, 'evidence', '*.json'))):
    e = json.load(open(f))
    c = e['coverage']
    if e['tier'] != 'quick' or e['violations']:
        continue
    out[e['property']] = '%d s; %d cases, %d executions, %d calls, %d distinct states' % (
        max(1, round(e['wall_s'])), c['cases_enumerated'], c.get('traces_validated_against_impl', c.get('evaluations', 0)),
        c.get('transitions', c.get('calls_into_code', 0)), c.get('states', c.get('distinct_nontrivial', 0)))
json.dump(out, open(os.path.join(HERE, 'tools', 'cost.json'), 'w'), indent=1)
