#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from plan import PLAN
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
TECH = {
    'default': 'explicit-state exploration of the real code against a '
    'reference model',
}
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[],
         not_applicable=[], notes='See DESIGN.md. The sources of /repo are '
         'compiled unmodified (no hooks); mc/shim.hpp is force-included and '
         'replaces the random engine by the explorer.')
for p in props:
    i = p['id']
    if i not in PLAN:
        m['not_applicable'].append(dict(property=i, reason='the check is not '
                                        'built yet'))
        continue
    m['checks'].append(dict(
        property=i, quick_cmd=f'python3 run.py {i} quick',
        thorough_cmd=f'python3 run.py {i} thorough',
        technique=PLAN[i].get('technique', TECH['default']),
        level='model_checking',
        level_note='Holds on everything enumerated: ' + PLAN[i]['bounds'] +
        '. Trusts the reference model and the random-draw seam (mc/), g++; '
        'says nothing beyond the stated bounds.'))
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
