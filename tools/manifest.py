#!/usr/bin/env python3
"""Writes MANIFEST.json from sa/registry.py and the reasons below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import registry

NA = {
    'C20': 'Running time: no static bound on the cost of hashing, sorting and the priority queue is in reach that would tell O(n) from a constant-factor change, and the README itself allows unspecified exceptions.',
    'C21': 'Whether simplified lines cross depends on the geometry of all edges together (runtime coordinates); the algorithm does not try to prevent it, so no structural necessary condition exists in the code.',
    'C22': 'A relation between two whole runs over unbounded heap structures; it is known to fail where rings of one region touch at a point (see DESIGN.md), and no rule over the code decides it.',
}
TODO = 'No sound static argument has been built for it yet; see DESIGN.md.'
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        C = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd='python3 /verif/check.py %s' % i, thorough_cmd='python3 /verif/check.py %s --tier thorough' % i,
                           technique=C['technique'], level=C['level'], level_note=C.get('note', registry.NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, TODO)))
json.dump(dict(version=1, setup_cmd='python3 /verif/sa/build.py --setup', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
