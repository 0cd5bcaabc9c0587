#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties, and what each check is."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import plan, vlib

HOW = {
    'default': 'TLA+ specification checked with TLC; cases generated from it replayed into the code, recorded runs judged by it',
    'C05': 'TLA+ model of input arriving in chunks, checked with TLC; its schedules replayed, recorded runs judged by it',
    'C12': 'TLA+ model of input arriving in chunks and failing, checked with TLC; its schedules replayed, recorded runs judged by it',
    'C14': 'TLA+ model of what input each event needs, checked with TLC; its schedules replayed, recorded runs judged by it',
    'C16': 'TLA+ model of the histories of a caller, checked with TLC; all of its histories replayed, recorded runs judged by it',
    'C17': 'TLA+ model of the histories of scalars, checked with TLC; all of its histories replayed, recorded runs judged by it',
}
NOTE = ('Exhaustive within the bounds of the models (which are in the evidence file and DESIGN.md): every generated case is '
        'run against the real code in several ways, and seeded random documents beyond them are judged by TLC. '
        'Trusts TLC, rustc and the harness, which observes the code through its public API alone.')

m = dict(version=1, setup_cmd='cd harness && cargo build --offline --quiet', checks=[], not_applicable=[])
for p in plan.PROPS:
    m['checks'].append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
                            technique=HOW.get(p, HOW['default']), level='model_checking', level_note=NOTE))
with open(os.path.join(vlib.VERIF, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
