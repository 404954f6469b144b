#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the check modules present (run with any python; parses constants only)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.join(HERE, '..')


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ('LEVEL', 'RULE', 'ASSUMPTIONS'):
                out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


TECH = {
    'model_checking': 'explicit-state model checking: exhaustive enumeration of operation sequences on the real code, every '
                      'transition compared with a reference model',
    'exploration': 'bounded exhaustive enumeration (small scope model checking) of inputs/configurations on the real code against '
                   'an independent exact oracle',
    'fault_enumeration': 'exhaustive enumeration of fault/truncation points on the real code',
}
man = dict(version=1, setup_cmd='python3 run.py selftest', checks=[], not_applicable=[])
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    path = os.path.join(ROOT, 'checks', p.lower() + '.py')
    if os.path.exists(path):
        c = consts(path)
        man['checks'].append(dict(
            property=p, quick_cmd='python3 run.py %s' % p, thorough_cmd='python3 run.py %s --tier thorough' % p,
            technique=TECH[c['LEVEL']], level=c['LEVEL'],
            level_note='Exhaustive within the bounds: ' + c['RULE'] + '. Assumes: ' + '; '.join(c['ASSUMPTIONS']) + '.'))
    else:
        man['not_applicable'].append(dict(property=p, reason='not claimed yet: the check is under construction'))
if not man['not_applicable']:
    del man['not_applicable']
man['notes'] = 'No hooks in /repo. Known findings and fixed defects: /verif/known_findings.txt.'
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(man['checks']), 'checks')
