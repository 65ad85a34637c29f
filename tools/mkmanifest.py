#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import checks
NA = {}
na_file = V + '/tools/not_applicable.json'
if os.path.exists(na_file): NA = json.load(open(na_file))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = ('TLC exhausts the specification within small constants and validates every recorded execution of the real code '
        'against it; assurance for the code covers the executions recorded (seeded random plus enumerated instances), '
        'trusting the driver\'s projection of the public API and TLC.')
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS and i not in NA:
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
            technique='TLA+ specification model checked with TLC; trace validation of the real code against it',
            level='model_checking', level_note=NOTE))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
