"""Writes MANIFEST.json from specs/table.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from specs.table import PROPS, NA
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed', 'source_commits': []},
     'checks': [], 'not_applicable': [],
     'notes': 'Verification engine in vp/, contracts in specs/, replay harness in harness/. See DESIGN.md.'}
for i in ids:
    if i in PROPS:
        s = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'python3-vt check.py ' + i,
                            'technique': 'contract-based deductive verification (symbolic execution of the extracted source, obligations discharged by term rewriting and z3)',
                            'level': 'proof', 'level_note': s['note'], 'theorems': s.get('theorems', [])})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not built yet')})
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
