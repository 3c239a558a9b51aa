#!/opt/venv/bin/python
"""Writes MANIFEST.json from symmon/registry.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symmon.registry import CASES, TECHNIQUE, NOTE

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid not in CASES:
        na.append({'property': pid, 'reason': 'no check built yet'})
        continue
    q, t, _ = CASES[pid]
    checks.append({
        'property': pid, 'quick_cmd': './check ' + pid, 'thorough_cmd': './check {} --tier thorough'.format(pid),
        'technique': 'runtime monitoring: ' + TECHNIQUE.get(pid, 'online oracle on generated workloads'), 'level': 'exploration',
        'level_note': NOTE.get(pid, 'Held on every execution observed ({} random workloads quick, {} thorough, 8 hash seeds); '
                               'nothing is claimed about workloads not generated.'.format(q, t)),
    })
man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import numpy, scipy, sympy"', 'checks': checks, 'not_applicable': na}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
