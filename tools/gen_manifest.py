#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'sa'))
import obligations, rules
NA = {
 'P90': 'Accuracy of rendered pixels against the exact profile is a statement about floating-point magnitudes; no sound static bound on FFT/mixture error is in reach, and comparing pixels would be a runtime test.',
 'P91': 'Convergence depends on the shape of the likelihood surface; no static argument over the source bounds it (the accept/restore logic is decided as P07, the bounds as P08).',
 'P92': 'Agreement to rounding of two different orders of floating-point operations is a numerical statement; the structural part (fallback, indexing, bookkeeping) is decided as P28.',
 'P93': 'Quality of an iterative fit is a runtime quantity; no static argument bounds it.',
}
TECH = 'value-graph (symbolic dataflow) comparison of each function with its confirmed behaviour, override/dispatch resolution'
NOTE = ('Each listed function of the current tree is summarised as a graph of its returned value, stores, effects and exceptions over all paths and inputs, '
        'normalised (algebra, loops, aliases, helper splicing), and must equal the confirmed definition; a difference that is understood is a violation, '
        'one that is not understood is listed as undecided in the evidence and not counted as held. ')
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if obligations.OBL.get(i) or rules.RULES.get(i):
        r = rules.RULES.get(i, [])
        tech = []
        if obligations.OBL.get(i):
            tech.append(TECH)
        tech += [(x.__doc__ or x.__name__).strip().split('\n')[0] for x in r]
        note = (NOTE if obligations.OBL.get(i) else '') + (
            'Property rules on top: ' + '; '.join((x.__doc__ or x.__name__).strip().split('\n')[0] for x in r) + '. ' if r else '') + \
            'Trusts the parser, the Python/numpy meaning of the operations in the graphs, and that attribute names are not rewritten dynamically.'
        checks.append(dict(property=i, quick_cmd='python3 sa/check.py %s --tier quick' % i,
                           thorough_cmd='python3 sa/check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='; '.join(tech), level='other', level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not yet built')))
m = dict(version=1, setup_cmd='python3 -m compileall -q sa', checks=checks, not_applicable=na,
         notes='Static analysis only; no hooks in /repo. See DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
