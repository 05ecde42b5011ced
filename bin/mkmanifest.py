#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/bin'); sys.dont_write_bytecode = True
from props import PROPS
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
if os.path.exists(V + '/bin/na.json'): NA = json.load(open(V + '/bin/na.json'))
m = {'version': 1, 'setup_cmd': 'bash bin/setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Contracts in contracts/*.vc are attached to Verus text extracted from /repo by clang on every run; see DESIGN.md.'}
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 bin/check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3 bin/check.py %s --tier thorough' % i,
            'technique': 'contract-based deductive verification (Verus/Z3) of functions extracted from the C++ source on every run', 'level': 'proof',
            'level_note': p.get('note', 'All inputs: every obligation of the functions under contract is discharged by Verus on the extracted text. Trusted: the extraction (clang AST to Verus), the specifications of std containers/strings/locks/hash, no allocation failure; term lengths below 2^61. A bounded concrete search of the compiled library runs beside the proof and is never counted as proved.'),
            'theorems': [p['theorem']] if isinstance(p['theorem'], str) else p['theorem']})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'contracts for this property are still being written')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
