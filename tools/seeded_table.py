#!/usr/bin/env python3
"""Prints the planted bugs as a table for DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    print('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], m.get('caught_by', m['property'])))
