#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
from props import PROPS

ROOT = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(f'{ROOT}/properties.jsonl')]
NOTE = {}
checks = []
for i in ids:
    if i not in PROPS:
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'cd /verif && ./check {i} quick',
        'thorough_cmd': f'cd /verif && ./check {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'path-wise symbolic execution of the LLVM IR rustc emits for the code (own executor, /verif/engine) with all inputs, '
                     'choices and faults symbolic; every branch and assertion decided by Z3; counterexamples replayed natively',
        'level': 'model_checking',
        'level_note': 'Exhaustive within stated bounds, which the evidence lists per harness: '
                      + '; '.join(f'{j["entry"]}({",".join(map(str, j["args"]))}): {j["bound"]}' for j in PROPS[i]['jobs'] if 'quick' in j['tiers']),
    })
m = {
    'version': 1,
    'setup_cmd': 'cd /verif && ./check --setup',
    'checks': checks,
    'not_applicable': [{'property': i, 'reason': 'harness not built yet'} for i in ids if i not in PROPS],
    'notes': 'No hooks in /repo: the harnesses use public interfaces only. See DESIGN.md.',
}
json.dump(m, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
open(f'{ROOT}/MANIFEST.json', 'a').write('\n')
