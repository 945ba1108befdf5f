#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
from registry import CHECKS

NOT = {
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, no = [], []
for p in props:
    pid = p['id']
    if pid in CHECKS:
        c = CHECKS[pid]
        specs = sorted(set(m for t in c['models'].values() for m, _ in t) |
            set(s[1] for s in c['sources']))
        checks.append(dict(property=pid,
            quick_cmd='./check.py %s --tier quick' % pid,
            thorough_cmd='./check.py %s --tier thorough' % pid,
            level='model_checking',
            technique='TLA+ specification (%s): TLC checks the bounded design '
                'model exhaustively and judges traces recorded from the real '
                'code, on scenarios that TLC behaviours and seeded generators '
                'supply' % ', '.join(x + '.tla' for x in specs),
            level_note=c.get('note', 'Exhaustive only on the bounded design '
                'model; the code itself is bound to it by validated traces, '
                'which sample the inputs and histories.')))
    else:
        no.append(dict(property=pid, reason=NOT.get(pid,
            'Not claimed yet: its specification and binding are being built.')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=no),
    open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
