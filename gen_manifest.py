#!/usr/bin/python3
"""Rewrites properties.jsonl and MANIFEST.json from lib/properties_src.py and
lib/manifest_data.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(here, 'lib'))
from manifest_data import CLAIMS, NOT_APPLICABLE
from properties_src import PROPS as props
props.sort(key=lambda p: p['id'])
for p in props:
    assert len(p['title']) <= 80, p['title']
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
checks = []
for p in props:
    if p['id'] in CLAIMS:
        tech, level, note = CLAIMS[p['id']]
        checks.append({'property': p['id'],
                       'quick_cmd': '/usr/bin/python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': '/usr/bin/python3 check.py %s --tier thorough' % p['id'],
                       'technique': tech, 'level': level, 'level_note': note})
na = [{'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]} for p in props if p['id'] not in CLAIMS]
m = {'version': 1, 'setup_cmd': '/usr/bin/python3 setup.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
