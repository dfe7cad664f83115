"""writes MANIFEST.json from tool/props.py and properties.jsonl"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P, NA
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
checks = []
na = []
for i in ids:
    if i in P:
        c = P[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 tool/check.py %s' % i,
            'thorough_cmd': 'python3 tool/check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification: Verus discharges function contracts and loop invariants on the functions extracted mechanically from the current source',
            'level': 'proof',
            'level_note': c.get('note', '') + ' Bounded only (never counted as proved): ' + c['bounded'] + '.',
            **({'theorems': c['theorems']} if c.get('theorems') else {}),
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no contract built yet')})
m = {'version': 1, 'setup_cmd': 'bash tool/setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'see DESIGN.md; no hooks are needed in /repo; known_findings.txt lists the repaired defects'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
