#!/usr/bin/env python3
"""writes MANIFEST.json: a check per property that has a specification or a harness"""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
checks, na = [], []
NOTES = json.load(open(HERE + '/tools/level_notes.json'))
for p in props:
    i = p['id']
    spec = os.path.exists('%s/specs/%s.py' % (HERE, i))
    if not spec:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'no contract written yet')})
        continue
    lv = re.search(r"^LEVEL = '(\w+)'", open('%s/specs/%s.py' % (HERE, i)).read(), re.M)
    checks.append({
        'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i,
        'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification: verification conditions generated from the current source by '
                     'symbolic execution against contracts, discharged by z3/cvc5; bounded contract checks on the real code '
                     'for replay and for the functions listed as out of reach',
        'level': lv.group(1) if lv else 'proof',
        'level_note': NOTES.get(i, {}).get('note', 'every contract clause discharged for symbolic sizes, values and loops')})
m = {'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
