"""regenerates MANIFEST.json from the contracts that exist"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification of the real code: PyVC verification conditions discharged by z3/cvc5'
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, 'contracts', p + '.py')):
        checks.append({
            'property': p, 'quick_cmd': f'python3-vt check.py {p}', 'thorough_cmd': f'python3-vt check.py {p} --thorough',
            'evidence_file': f'evidence/{p}.json', 'technique': TECH, 'level': NOTES.get(p, {}).get('level', 'proof'),
            'level_note': NOTES.get(p, {}).get('note', 'see DESIGN.md')})
    else:
        na.append({'property': p, 'reason': NOTES.get(p, {}).get('na', 'no check built yet')})
m = {'version': 1,
     'setup_cmd': 'python3-vt -c "import z3, jsonschema; print(z3.get_version_string())" && /opt/venv/bin/python -c "print(1)"',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the contracts live in /verif/contracts and are checked against the source as it stands.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'claimed', len(na), 'not')
