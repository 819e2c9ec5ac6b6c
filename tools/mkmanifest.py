"""Writes /verif/MANIFEST.json from the property modules."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for p in props:
    f = os.path.join(V, 'mon', 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    src = open(f).read()
    note = re.search(r"^NOTE = \(?((?:\s*'[^\n]*'\n?)+)\)?", src, re.M)
    note = ''.join(re.findall(r"'((?:[^'\\]|\\.)*)'", note.group(1))) if note else ''
    checks.append(dict(
        property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='./check ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique='runtime monitors at the public API boundary with reference oracles under a seeded hostile workload',
        level='exploration',
        level_note=note or 'Holds on the recorded executions only; inputs outside the generated families are not covered.'))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=[],
               notes='No hooks in /repo: all monitors attach to the public boundary at import time. '
                     'Replay a violation with ./check <property> --replay <file>.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks))
