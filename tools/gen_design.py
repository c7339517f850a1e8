"""Writes DESIGN.md from the notes in tools/ and what the check modules say about themselves."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
COST = json.load(open(os.path.join(T, 'cost.json')))
out = [open(os.path.join(T, 'design_head.md')).read()]
for p in P:
    f = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    t = ast.parse(open(f).read())
    c = {n.targets[0].id: n.value for n in t.body if isinstance(n, ast.Assign) and hasattr(n.targets[0], 'id')}
    g = lambda k: ast.literal_eval(c[k])
    doc = ' '.join(ast.get_docstring(t).split())
    doc = doc.split(': ', 1)[1] if doc.startswith(p['id'] + ':') else doc
    out.append('### %s – %s\n\n%s\n\n*Monitors and oracle.* %s\n\n*Explored.* %s %s\n\n*Why tests cannot.* %s\n\n*Assumptions and bounds.* %s.\n\n*Cost.* %s s.\n\n' % (
        p['id'], p['title'], p['statement'], doc, g('LEVEL_NOTE'), g('RULE'), p['why_tests_cant'],
        '; '.join(g('ASSUMPTIONS')), COST.get(p['id'], '?')))
out.append(open(os.path.join(T, 'design_tail.md')).read())
rows = []
S = os.path.join(V, 'seeded')
res = os.path.join(T, 'seeded_results.json')
res = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    if not os.path.exists(os.path.join(S, d, 'meta.json')):
        continue
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], ', '.join(res.get(d, [])) or 'none yet'))
out.append('## 7. Planted bugs and the checks that catch them\n\n'
           'Every planted bug builds, passes the 985 stable tests, and has a demonstration. "Caught by" lists the checks (quick '
           'tier) whose own VIOLATION line was seen with the bug applied.\n\n'
           '| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n')
extra = os.path.join(T, 'design_seeded.md')
if os.path.exists(extra):
    out.append('\n' + open(extra).read())
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
