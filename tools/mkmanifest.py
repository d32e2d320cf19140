#!/usr/bin/env python3
"""writes MANIFEST.json from checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': './build_harness.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in CHECKS:
        m['checks'].append({
            'property': p, 'quick_cmd': './check.py %s quick' % p, 'thorough_cmd': './check.py %s thorough' % p,
            'technique': 'symbolic execution of the compiled code (rustc LLVM IR), paths and assertions decided by the z3 SMT solver',
            'level': 'model_checking', 'level_note': 'bounded: ' + CHECKS[p]['bounds'] + '. Outside: ' + CHECKS[p]['outside']})
    else:
        m['not_applicable'].append({'property': p, 'reason': NOT_APPLICABLE[p]})
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
