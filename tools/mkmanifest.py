#!/usr/bin/env python3
"""Writes MANIFEST.json from the specs and properties.jsonl."""
import json, os, sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from specs import SPECS

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
assert len(SPECS) >= 1
checks, na = [], []
for p in props:
    i = p['id']
    if i in SPECS and SPECS[i]['queries']:
        s = SPECS[i]
        n = sum(q.tier == 'quick' for q in s['queries'])
        checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
            technique='bounded symbolic execution of the compiled C sources (CBMC) with a SAT solver; counterexamples replayed on the native build',
            level='model_checking',
            level_note='%d queries (%d quick). Bounds: %s. %s' % (len(s['queries']), n, s['bounds'] or 'see DESIGN.md', 'Assumed: ' + '; '.join(s['assumptions']) + '.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks: the harnesses use the public API of /repo only. Every run compiles /repo\'s current sources with goto-cc.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
