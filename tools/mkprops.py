#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl and MANIFEST.json."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, claimed=True,
         technique=None, level=None, note=None):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, observe=observe, technique=technique,
                  level=level, note=note))


T = 'impactutils/transfer/'
exec(open(os.path.join(HERE, 'tools', 'props_data.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['qtext']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                        'observe_at': p['observe']}}) + '\n')

def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], 'id', '') in ('LEVEL', 'RULE', 'TECHNIQUE'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


TECH = {'model_checking': 'explicit-state bounded model checking: all histories on the real code against a reference model',
        'fault_enumeration': 'stateless model checking: exhaustive enumeration of environment answers / faults on the real code',
        'exploration': 'bounded exhaustive enumeration of the input/configuration space on the real code against a reference model'}
checks, na = [], []
for p in P:
    built = os.path.exists(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py'))
    if built:
        c = consts(os.path.join(HERE, 'mc', 'props', p['id'].lower() + '.py'))
        checks.append({'property': p['id'],
                       'quick_cmd': 'bash /verif/run.sh %s quick' % p['id'],
                       'thorough_cmd': 'bash /verif/run.sh %s thorough' % p['id'],
                       'technique': c.get('TECHNIQUE') or TECH[c['LEVEL']],
                       'level': c['LEVEL'],
                       'level_note': 'Exhaustive within these bounds: ' + c['RULE'],
                       'evidence_file': 'evidence/%s.json' % p['id']})
    else:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks,
               'not_applicable': na}, f, indent=1)
    f.write('\n')
print(len(P), 'properties', len(checks), 'claimed')
