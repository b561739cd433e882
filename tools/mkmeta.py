#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from properties_src.py."""
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
sys.path.insert(0, here)
sys.path.insert(0, V)
import properties_src as S            # noqa: E402
from scen import registry             # noqa: E402

NOTES = json.load(open(os.path.join(here, 'level_notes.json')))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in S.P:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in S.P:
    i = p['id']
    if i in S.NA:
        na.append(dict(property=i, reason=S.NA[i]))
        continue
    mod = os.path.join(V, 'scen', registry.MODULES[i] + '.py')
    if not os.path.exists(mod):
        na.append(dict(property=i, reason='check not built yet'))
        continue
    checks.append(dict(
        property=i,
        quick_cmd=f'VERIF_TIER=quick python3 run.py {i}',
        thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
        evidence_file=f'evidence/{i}.json',
        technique='deterministic simulation with seeded schedules and fault injection: ' + NOTES[i][0],
        level='exploration',
        level_note=NOTES[i][1]))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: all seams are the standard-library and third-party interfaces the code already '
               'uses. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
