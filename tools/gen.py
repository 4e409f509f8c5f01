#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from props import PROPS
from checks.registry import CHECKS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for d, *_ in PROPS:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
for d, tech, note, na in PROPS:
    if na:
        m['not_applicable'].append({'property': d['id'], 'reason': na})
        continue
    assert d['id'] in CHECKS, d['id']
    m['checks'].append({'property': d['id'], 'quick_cmd': 'python3 check.py ' + d['id'], 'thorough_cmd': 'python3 check.py %s --thorough' % d['id'],
                        'technique': tech, 'level': 'other', 'level_note': note})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
import importlib.util
if importlib.util.find_spec('jsonschema'):
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d, *_ in PROPS:
        jsonschema.validate(d, s)
        assert len(d['statement'].split('. ')) <= 3, d['id']
print(len(PROPS), 'properties', len(m['checks']), 'checks')
