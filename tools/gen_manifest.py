#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks present in checks/."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
import importlib
sys.dont_write_bytecode = True
NA = {}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    f = V + '/checks/%s.py' % p.lower()
    if not os.path.exists(f):
        na.append({'property': p, 'reason': NA.get(p, 'check not built yet')})
        continue
    m = importlib.import_module(p.lower())
    checks.append({'property': p, 'quick_cmd': 'VERIF_TIER=quick python3 bin/check %s' % p,
                   'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check %s' % p,
                   'technique': getattr(m, 'TECHNIQUE', 'TLA+ specification checked by TLC; recorded runs of the real code validated against it'),
                   'level': m.LEVEL, 'level_note': getattr(m, 'NOTE', '')})
    if not checks[-1]['level_note']:
        print('no level note for', p)
d = {'version': 1, 'setup_cmd': 'python3 bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+/TLC. bin/check <ID> builds the drivers of /verif/drivers from /repo\'s working tree, records what the real code does, and lets TLC judge it against spec/. Hooks: none were needed in /repo (public API and link-time interposition only).'}
json.dump(d, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
