#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/tools']
from props import P
from checks import PROPS
P.sort(key=lambda p: p['id'])
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids) and set(PROPS) == set(ids), (set(PROPS) ^ set(ids))
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    p['statement'] = ' '.join(p['statement'].split())
with open(HERE + '/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
checks = []
for p in P:
    i = p['id']
    v = sorted({j[1] for j in PROPS[i]['jobs']})
    names = dict(asan='AddressSanitizer+UBSan', tsan='ThreadSanitizer', noise='injected schedule noise', fast='optimised stress')
    checks.append(dict(property=i, quick_cmd='python3 run.py %s quick' % i, thorough_cmd='python3 run.py %s thorough' % i,
                       technique='runtime monitoring: %s; %s' % (PROPS[i].get('oracle', 'reference-model and trace oracles'), ', '.join(names[x] for x in v)),
                       level='exploration',
                       level_note=PROPS[i].get('note', 'The oracle judges executions of the real code under generated workloads; nothing is claimed about executions not observed. '
                                               'Trusts the compiler sanitizers, the harness and, where used, the KlepsydraSDK stand-in.')))
json.dump(dict(version=1, setup_cmd='python3 tools/selftest.py',
               hooks=dict(guard='KPSR_VERIF_NO_HOOKS', enable='no hooks are compiled into /repo: schedule noise is inserted by the compiler (-fsanitize-coverage) and faults by link-time wrapping', source_commits=[]),
               checks=checks, not_applicable=[], notes='See DESIGN.md; known_findings.txt lists repaired defects.'),
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
