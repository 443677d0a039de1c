#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (vf/cXX.py: TECHNIQUE, LEVEL, LEVEL_NOTE)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = []
na = []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    m = os.path.join(V, 'vf', p.lower() + '.py')
    if not os.path.exists(m):
        na.append({'property': p, 'reason': 'check not built yet'})
        continue
    c = {}
    for n in ast.parse(open(m).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('LEVEL', 'TECHNIQUE', 'LEVEL_NOTE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': c['TECHNIQUE'], 'level': c['LEVEL'],
                   'level_note': c['LEVEL_NOTE']})
d = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'PYAVB_VERIF (unused: no hooks were needed in /repo)',
               'enable': 'Nothing to enable: the checks import /repo/src and build the native reader from it with or without sanitizers.',
               'source_commits': []},
     'notes': 'All checks run the real code under generated, hostile and fault-injected workloads with monitors as oracles; see DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(d, f, indent=1)
    f.write('\n')
