#!/usr/bin/env python3
"""MANIFEST.json from the properties and the contract files present"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
OTHER = {}      # id -> (level, note) where the deciding method is not a proof throughout
NA = {}
exec(open(V + '/tools/manifest_notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA or not os.path.exists('%s/contracts/%s.py' % (V, i)):
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
        continue
    level, note = OTHER.get(i, ('proof', ''))
    checks.append(dict(property=i, quick_cmd='./run %s' % i, thorough_cmd='VERIF_TIER=thorough ./run %s' % i,
                       technique='contract-based deductive verification of the functions extracted from /repo on every run '
                                 '(verification conditions discharged by term normalisation, case split and z3); '
                                 'failed obligations replayed on the real code',
                       level=level, level_note=note or NOTES[i]))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
