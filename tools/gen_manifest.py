#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and their TECHNIQUE/LEVEL_NOTE."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(V, 'checks', i.lower() + '.py')
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    if not os.path.exists(f):
        na.append({'property': i, 'reason': 'check not built yet'})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'LEVEL_NOTE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        'property': i,
        'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % i,
        'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % i,
        'technique': c['TECHNIQUE'], 'level': 'exploration', 'level_note': c['LEVEL_NOTE']})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python tools/setup.py',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed in /repo: the monitors attach through the public API '
              '(buffers, hooks, handlers, iterators). Every check compiles the Cython '
              'extension from /repo into /verif/.build (keyed by content) and imports the '
              'package from /repo/brainstorm.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
