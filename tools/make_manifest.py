"""Regenerate MANIFEST.json from the property modules that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = json.load(open(os.path.join(HERE, 'tools', 'techniques.json')))
props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'harness', 'props', i.lower() + '.py')):
        t = TECH[i]
        checks.append(dict(
            property=i, quick_cmd='./run %s quick' % i, thorough_cmd='./run %s thorough' % i,
            technique='TLA+/TLC: ' + t['technique'], level='model_checking',
            level_note=t['note']))
    else:
        na.append(dict(property=i, reason='specification and conformance check not built yet'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
