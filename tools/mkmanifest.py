#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties that have a harness in
props/ (the level notes are the bounds the harnesses state)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}


def meta(path):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'META':
            kw = {k.arg: k.value for k in n.value.keywords}
            return ast.literal_eval(kw['bounds']), ast.literal_eval(kw['outside'])


checks = []
na = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    f = os.path.join(HERE, 'props', p.lower() + '.py')
    if p in NOT_APPLICABLE:
        na.append({'property': p, 'reason': NOT_APPLICABLE[p]})
    elif not os.path.exists(f):
        na.append({'property': p, 'reason': 'no check has been built yet'})
    else:
        bounds, outside = meta(f)
        checks.append({
            'property': p,
            'quick_cmd': './check.sh %s quick' % p,
            'thorough_cmd': './check.sh %s thorough' % p,
            'technique': 'symbolic execution of the real Python source with z3 deciding branches and assertions, '
                         'native replay of every counterexample',
            'level': 'model_checking',
            'level_note': 'Bounded: ' + bounds + '. Outside: ' + outside + '.'})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump({
        'version': 1,
        'setup_cmd': 'python3-vt -c "import z3"',
        'checks': checks,
        'not_applicable': na,
        'notes': 'No hooks: /repo is encoded as it is (the sources are instrumented while they are imported). '
                 'known_findings.json lists the defects repaired by "fix:" commits.'}, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
