#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from props import PROPS
claimed = [p for p in PROPS if os.path.exists('%s/checks/%s.py' % (V, p['id'])) and not p['_na']]
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}) + '\n')
m = dict(version=1, setup_cmd='true',
    checks=[dict(property=p['id'], quick_cmd='./run.sh ' + p['id'], thorough_cmd='./run.sh %s --thorough' % p['id'], technique=p['_tech'], level='other',
                 level_note=p['_note'] or 'Bounded symbolic check of the real code; bounds, stubs and undecided obligations are listed in the evidence file and DESIGN.md; only natively reproduced counterexamples are reported.') for p in claimed],
    not_applicable=[dict(property=p['id'], reason=p['_na'] or 'check not built yet') for p in PROPS if p not in claimed],
    notes='No hooks in /repo are needed: checks compile harnesses in /verif/harness with the sources of /repo.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print('claimed', [p['id'] for p in claimed])
