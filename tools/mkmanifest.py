#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
os.environ['PYTHONHASHSEED'] = '0'
import check

SUM = 'dataflow summaries of the typed source (THIR) in canonical normal form, compared with the required value'
TECH = {
    'C09': SUM + '; effect lint on every parallel closure',
    'C29': 'effect analysis over the resolved call graph and statics, plus effect log of every summary',
    'C30': 'type-level: signatures and Freeze of every model/dataset type, mutation lint over resolved places',
    'C31': SUM + ' of everything written to standard output',
}
NOTE = ('Holds for every input within the stated preconditions when all obligations are discharged (no bounds on rows, '
        'features, targets, depth or rounds). Float arithmetic is read as real arithmetic; std, rayon and csv calls are '
        'trusted to behave as modelled; obligations the analysis cannot decide are listed as undecided in the evidence and '
        'are not counted as held (none on the current tree).')
NOTES = {}
NA = {}

have = check.props()
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in have and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': TECH.get(i, SUM), 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
