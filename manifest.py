#!/usr/bin/env python3
# writes MANIFEST.json from props.py
import json, os
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.abspath(__file__))
LEVEL = 'symbolic execution of the LLVM IR of the real code, regenerated on every run; every assertion on every path within the bounds decided (identical terms, or unsat by z3); counterexamples replayed natively. Trusts symir, z3 and rustc; bounds: '
json.dump({
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{'property': p, 'quick_cmd': 'python3 run.py %s quick' % p, 'thorough_cmd': 'python3 run.py %s thorough' % p, 'technique': 'symbolic execution of the compiled IR + SMT (z3), native replay', 'level': 'model_checking', 'level_note': LEVEL + d['bounds']} for p, d in sorted(PROPS.items())],
    'not_applicable': [{'property': p, 'reason': r} for p, r in NOT_APPLICABLE],
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

from propdoc import T
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(t, ensure_ascii=False) + '\n' for t in T))
for t in T: assert len(t['title']) <= 80, t['id']
assert sorted(t['id'] for t in T) == sorted(list(PROPS) + [p for p, _ in NOT_APPLICABLE])
