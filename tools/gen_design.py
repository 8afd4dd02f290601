#!/usr/bin/env python3
"""Regenerate the tables of DESIGN.md (findings, seeded bugs, per-property scope)
from the machine-readable files; the prose lives in tools/design.md.in."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'sa'))
import program, obligations
P = program.load(os.path.join(R, 'contracts'))
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
man = json.load(open(os.path.join(R, 'MANIFEST.json')))
na = {x['property']: x['reason'] for x in man['not_applicable']}
notes = {}
cur = None
for l in open(os.path.join(R, 'tools', 'design_props.txt')):
    if l.strip() and not l.startswith(' '):
        cur = l.strip().split()[0]
        notes[cur] = []
    elif cur:
        notes[cur].append(l.strip())
out = []
for p in props:
    i = p['id']
    out.append('### %s %s' % (i, p['title']))
    out.append('')
    if i in na:
        out.append('*Not applicable.* ' + na[i])
    else:
        n = len(obligations.expand(P, i, ['*:*'] if i == 'P21' else None))
        out.append('*Functions decided:* %d (plus every override reachable by dispatch from them).' % n)
        out.append(' '.join(notes.get(i, [])))
    out.append('')
PROPS = '\n'.join(out)
kf = json.load(open(os.path.join(R, 'known_findings.json')))
KF = '\n'.join('| %s | %s | %s | %s |' % (e['property'], e['status'], e.get('commit', '-'), e['what']) for e in kf)
sd = []
base = os.path.join(R, 'seeded')
for d in sorted(os.listdir(base)):
    m = json.load(open(os.path.join(base, d, 'meta.json')))
    sd.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
t = open(os.path.join(R, 'tools', 'design.md.in')).read()
t = t.replace('@PROPS@', PROPS).replace('@FINDINGS@', KF).replace('@SEEDED@', '\n'.join(sd))
open(os.path.join(R, 'DESIGN.md'), 'w').write(t)
