#!/usr/bin/env python3
"""Writes MANIFEST.json from harness/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(V, 'harness'))
import specs
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i, technique='symbolic execution of the LLVM IR of the real headers, assertions decided by Z3, counterexamples replayed natively',
            level='model_checking', level_note=s.get('note') or specs.NOTE))
    else:
        na.append(dict(property=i, reason=specs.NA.get(i, 'no check yet')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='Every check compiles /repo/include from the working tree with the harness to LLVM IR on each run; no hooks in /repo are needed.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
