"""Writes DESIGN.md."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)


def read(p):
    with open(p) as f:
        return f.read()


def consts(path):
    tree = ast.parse(read(path))
    out = {'doc': ast.get_docstring(tree)}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in (
                'BOUNDS', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


out = [read('doc/head.md'), '\n## Properties\n']
for line in read('properties.jsonl').splitlines():
    p = json.loads(line)
    path = 'checks/%s.py' % p['id'].lower()
    c = consts(path)
    out.append('\n### %s %s\n\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n\n')
    out.append('* **Decided by** (`%s`): %s\n' % (path, c['doc']))
    out.append('* **Bounds** quick: %s; thorough: %s.\n' % (
        c['BOUNDS']['quick'], c['BOUNDS']['thorough']))
    if c['ASSUMPTIONS']:
        out.append('* **Assumptions**: %s.\n' % '; '.join(c['ASSUMPTIONS']))
    out.append('* **Beyond tests**: %s\n' % p['why_tests_cant'])
    costs = json.loads(read('doc/costs.json')) if os.path.exists(
        'doc/costs.json') else {}
    if p['id'] in costs:
        out.append('* **Cost** (quick, 8 cores): %s\n' % costs[p['id']])
out.append('\n## Findings\n\nDefects found by these checks and repaired in '
           '/repo (one `fix:` commit each):\n\n')
k = json.loads(read('known_findings.json'))
for f in k['fixed']:
    out.append('* %s\n' % f[len('fixed: '):])
out.append('\nRecorded, not repaired:\n\n')
for f in k['known']:
    out.append('* %s `%s`: %s\n' % (f['property'], f['key'], f['what']))
out.append('\n' + read('doc/tail.md'))
out.append('\n## Planted bugs and which checks catch them\n\n'
           '| bug | property | needs | caught by |\n|---|---|---|---|\n')
catches = json.loads(read('doc/catches.json'))
for i in sorted(os.listdir('seeded')):
    m = json.loads(read('seeded/%s/meta.json' % i))
    out.append('| %s | %s | %s | %s |\n' % (
        i, m['property'], m['needs'].replace('|', '/'),
        ', '.join(catches.get(i, ['not run'])) or '**missed**'))
with open('DESIGN.md', 'w') as f:
    f.write(''.join(out))
