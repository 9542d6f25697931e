#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = 'contract-based deductive verification of the compiled MIR (symbolic VC generation, interval/polynomial/z3 discharge)'
NOTES = json.load(open(os.path.join(V, 'levels.json')))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='minisign_vp', enable='RUSTFLAGS=--cfg minisign_vp', source_commits=NOTES['hook_commits']),
         checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'engine', 'checks', i.lower() + '.py')):
        m['checks'].append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
                                technique=TECH, level='proof', level_note=NOTES['notes'].get(i, 'contracts on the functions of this property')))
    else:
        m['not_applicable'].append(dict(property=i, reason=NOTES['na'].get(i, 'check not built yet')))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
