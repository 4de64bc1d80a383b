"""Regenerates MANIFEST.json from lib/props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
checks = []
for i in ids:
    if i not in props.PROPS: continue
    fn, meta = props.PROPS[i]
    t = props.TECH.get(i, 'runtime monitoring')
    checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                       technique=t, level=meta.get('level', 'exploration'), level_note=props.NOTE.get(i, 'held on the executions explored; counts in the evidence file')))
na = [dict(property=i, reason=NA.get(i, 'no check built yet')) for i in ids if i not in props.PROPS]
m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'lib\'); import props"', checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
