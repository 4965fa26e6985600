"""Writes MANIFEST.json from engine/registry.py and properties.jsonl."""
import sys, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
from registry import PROPS, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt engine/check.py %s quick' % i, 'thorough_cmd': 'python3-vt engine/check.py %s thorough' % i,
                            'technique': c['technique'], 'level': c['level'], 'level_note': c['note'][:900]})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not decided yet: the analysis is still being built')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
