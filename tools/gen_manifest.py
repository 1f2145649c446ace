#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(V, 'props', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique='symbolic execution of the Python and Cython sources of /repo, z3 decides every path condition and assertion; counterexamples replayed on the built package',
            level='model_checking',
            level_note='every value within the bounds listed in the evidence file (bounds, outside_bounds); numpy, struct, io, gzip, zstandard and subprocess are stand-ins'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check registered yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='check.py PROP explores the harness props/<prop>.py symbolically (engine in vf/), see DESIGN.md')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
