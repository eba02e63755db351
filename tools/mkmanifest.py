#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(R + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3 run.py --selfcheck', checks=[], not_applicable=[])
hooks = getattr(__import__('checks'), 'HOOKS', None)
if hooks: m['hooks'] = hooks
for p in props:
    c = CHECKS.get(p['id'])
    if c:
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'],
                                technique=c['technique'], level='model_checking', level_note=c['level_note'], evidence_file='evidence/%s.json' % p['id']))
    else:
        m['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'unclaimed')
