#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the checks present."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = ("Bounded: the repository's functions are executed symbolically from their current source; z3 decides every assertion over all "
        "values within the stated bounds (evidence lists bounds, functions, paths, queries); counterexamples are replayed on the real code.")
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % i,
                       'technique': 'symbolic execution of the repository source with SMT (z3) assertions, bounded, counterexample replay',
                       'level': 'model_checking', 'level_note': NOTE})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. Engine in symx/, harnesses in checks/, replay with replay.py.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
