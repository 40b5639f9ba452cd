#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/table.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'spec'))
import table

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in table.PROPS + table.NOT_APPLICABLE:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p.get('qtext') or 'every input and configuration'),
                 why_tests_cant=p.get('why') or 'A test samples a few recordings and cannot settle a statement about all of them.',
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
        f.write(json.dumps(d, ensure_ascii=False) + '\n')

DEFAULT_TECH = 'value-graph equivalence of every function that carries the property (gated SSA over the typed syntax tree, normalised) against a reviewed reference'
NOTE = ('Decides, for all inputs, that each listed function (helpers inlined where they changed) still denotes the reviewed value graph; arithmetic over the reals, '
        'library calls uninterpreted, floating-point rounding and unmodelled constructs not covered: those are reported as undecided in the evidence and raise no alarm. ')
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[dict(property=p['id'], reason=p['reason']) for p in table.NOT_APPLICABLE],
         notes='Static analysis of the clang syntax trees of /repo; see DESIGN.md. Known and fixed defects: known_findings.txt.')
for p in table.PROPS:
    m['checks'].append(dict(property=p['id'], quick_cmd='./check.py %s quick' % p['id'], thorough_cmd='./check.py %s thorough' % p['id'],
                            technique=p['tech'] or DEFAULT_TECH, level=p['level'],
                            level_note=(p['note'] + ' ' if p['note'] else '') + (NOTE if p['fns'] else 'Sound for the construct classes named in the rule; aliasing is by declared type.')))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
