#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
sys.dont_write_bytecode = True
D = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, D)
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(D, '..', 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(D, 'notes.json'))) if os.path.exists(os.path.join(D, 'notes.json')) else {}
checks = []
for p in ids:
    if p not in props.PROPS: continue
    n = NOTES.get(p, {})
    checks.append({
        'property': p, 'quick_cmd': './check %s' % p, 'thorough_cmd': './check %s --tier thorough' % p,
        'technique': n.get('technique', 'TLA+ specification of the codec; TLC judges every recorded execution of the implementation against it'),
        'level': 'model_checking',
        'level_note': n.get('note', 'Every recorded execution is one step TLC compares with the TLA+ specification; covers the generated types, values, inputs and schedules of the run (seeded), not all of them. Trusted: TLC, the harness recording values and outcomes.')})
m = {'version': 1, 'setup_cmd': './setup', 'checks': checks,
     'not_applicable': [{'property': p, 'reason': NOTES.get(p, {}).get('na', 'not claimed yet: its check is being built')} for p in ids if p not in props.PROPS],
     'notes': 'TLA+ with TLC. ./check ID --replay FILE repeats the case of a reported violation.'}
json.dump(m, open(os.path.join(D, '..', 'MANIFEST.json'), 'w'), indent=1)
