#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks present in checks/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {}
checks = []
na = []
for p in props:
    f = os.path.join(V, 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    s = open(f).read()
    t = re.search(r"^TECHNIQUE = \(?((?:\s*'[^']*')+)\)?", s, re.M)
    n = re.search(r"^NOTE = \(?((?:\s*'[^']*')+)\)?", s, re.M)
    technique = eval('(' + t.group(1) + ')') if t else \
        'runtime monitoring: lockstep reference monitor over generated operation histories on the real code'
    note = eval('(' + n.group(1) + ')') if n else \
        'Monitored executions only: random histories from a seed; holds for what was executed, not proved for all.'
    checks.append({
        'property': p['id'],
        'quick_cmd': 'bash check.sh {} quick'.format(p['id']),
        'thorough_cmd': 'bash check.sh {} thorough'.format(p['id']),
        'evidence_file': 'evidence/{}.json'.format(p['id']),
        'technique': technique, 'level': 'exploration', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
