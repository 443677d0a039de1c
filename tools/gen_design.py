#!/usr/bin/env python3
"""Writes the generated parts of DESIGN.md: from tools/design_head.md, the check modules, known_findings.jsonl and tools/catches.json."""
import ast, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
out = [open(os.path.join(T, 'design_head.md')).read().rstrip(), '', '## 4. The properties and how each is decided', '']
reach = json.load(open(os.path.join(T, 'design_reach.json')))
cost = json.load(open(os.path.join(T, 'cost.json')))
for line in open(os.path.join(V, 'properties.jsonl')):
    d = json.loads(line)
    p = d['id']
    c = {}
    for n in ast.parse(open(os.path.join(V, 'vf', p.lower() + '.py')).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'PLANS', 'TECHNIQUE', 'LEVEL_NOTE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    out += ['### %s %s' % (p, d['title']), '', '- **Specified:** ' + d['statement'], '- **Decided by:** ' + c['TECHNIQUE'] + '.',
            '- **Workloads and monitors:** ' + c['RULE']]
    out.append('- **Assumptions:** ' + '; '.join(c['ASSUMPTIONS']) + '.')
    q = ', '.join('%s/%s %d' % (m, w, n) for m, w, n, s in c['PLANS']['quick'])
    t = ', '.join('%s/%s %d' % (m, w, n) for m, w, n, s in c['PLANS']['thorough'])
    out.append('- **Bounds (mode/workload cases):** quick: %s; thorough: %s. %s' % (q, t, c['LEVEL_NOTE']))
    out.append('- **Cost:** %s' % cost.get(p, 'see evidence'))
    out.append('- **Beyond the tests:** ' + reach[p])
    out.append('')
out += ['## 5. Genuine defects found', '', 'Repaired by `fix:` commits in /repo (each leaves the 122 tests passing):', '']
known = []
for line in open(os.path.join(V, 'known_findings.jsonl')):
    if line.startswith('fixed:'):
        _, p, h, w = line.strip().split(' ', 3)
        out.append('- %s `%s` %s' % (p.split('=')[1], h, w))
    elif line.startswith('{'):
        known.append(json.loads(line))
out += ['', 'Recorded, not repaired (printed as KNOWN-FINDING, keyed; any other violation of the property is still reported):', '']
for k in known:
    out.append('- %s `%s`: %s' % (k['property'], k['key'], k['what']))
out += ['', open(os.path.join(T, 'design_mid.md')).read().rstrip(), '']
out += ['## 8. Planted bugs and which checks catch them', '']
cp = os.path.join(T, 'catches.json')
catches = json.load(open(cp)) if os.path.exists(cp) else {}
out += ['| bug | property | what it breaks, what it needs | caught by |', '|---|---|---|---|']
sd = os.path.join(V, 'seeded')
for b in sorted(os.listdir(sd)):
    m = os.path.join(sd, b, 'meta.json')
    if os.path.exists(m):
        d = json.load(open(m))
        out.append('| %s | %s | %s Needs: %s | %s |' % (b, d['property'], d['what_it_breaks'].rstrip('.') + '.', d['needs'].rstrip('.') + '.', catches.get(b, 'not run yet')))
out += ['', open(os.path.join(T, 'design_tail.md')).read().rstrip(), '']
with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
