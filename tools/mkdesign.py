"""Writes /verif/DESIGN.md from the property list, the notes per property, the findings file and the seeded changes."""
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from design_props import D  # noqa: E402

notes = {d[0]: d[1:] for d in D}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
cost = json.load(open(os.path.join(V, 'tools', 'cost.json')))
catches = json.load(open(os.path.join(V, 'tools', 'catches.json')))
head = open(os.path.join(V, 'tools', 'design_head.md')).read()
tail = open(os.path.join(V, 'tools', 'design_tail.md')).read()

out = [head.rstrip(), '', '## Properties', '',
       'Cost is the wall time of the quick run on 8 cores; the thorough run uses about ten times as many cases (capped at 780 s).', '']
for p in props:
    o, b, r = notes[p['id']]
    out += ['### %s %s' % (p['id'], p['title']), '', '* Oracle: ' + o, '* Bounds: ' + b,
            '* Cost: about %d s.' % round(cost[p['id']]), '* Reach: ' + r, '']
out += ['No property is declared not applicable.', '']

out += ['## Repaired defects', '', 'Each was found by the check named, and repaired by a commit of its own in /repo. '
        'They are recorded as `fixed:` lines in `known-findings.txt`, which suppress nothing. There are no open findings.', '',
        '| property | commit | what failed |', '|---|---|---|']
for l in open(os.path.join(V, 'known-findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        out.append('| %s | %s | %s |' % m.groups())
out += ['', '## Seeded changes and the checks that catch them', '',
        'Every change below builds, passes the 15 tests of the repository, and was caught by the quick run (seed 1) of its own property when it was last run against it. '
        'Workloads changed since for some of them, and not all were run again. '
        'The last column lists the other checks that caught it when all checks ran with one fortieth of the quick workload; `not measured` means that only its own check was run.', '',
        '| change | property | what it breaks | needs | also caught by |', '|---|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(V, 'seeded')), key=lambda i: (json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))['property'], i)):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    also = [c for c in catches.get(i, []) if c != m['property']]
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['what_it_breaks'], m['needs'], ', '.join(also) or ('-' if i in catches else 'not measured')))
out += ['', tail.rstrip(), '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
