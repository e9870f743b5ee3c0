#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and plan.py."""
import json
from plan import PLAN
checks = []
for l in open('properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    n = len(PLAN[i]['quick'])
    checks.append({
        'property': i,
        'quick_cmd': f'python3 check.py {i}',
        'thorough_cmd': f'python3 check.py {i} --thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'symbolic execution of the LLVM IR that rustc makes of the crate, every branch and assertion decided by z3',
        'level': 'model_checking',
        'level_note': f'Every path of {n} harness entries is explored over all values of their symbolic bytes and decided by z3; '
                      'the bounds (message templates, numbers of unconstrained bytes, lengths, counts) are stated per entry in the evidence file and in DESIGN.md. '
                      'Counterexamples are replayed against the natively compiled crate before they are reported.',
    })
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': []},
          open('MANIFEST.json', 'w'), indent=1)
