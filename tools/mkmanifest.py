#!/usr/bin/env python3
"""regenerates /verif/MANIFEST.json from the proofs present and tools/notes.py"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, os.path.join(V, 'tools'))
import check, notes
proofs = check.load_proofs()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    mine = [x for x in proofs if i in x['props']]
    if i in notes.NA:
        na.append({'property': i, 'reason': notes.NA[i]}); continue
    if not mine or i in notes.NOT_YET:
        na.append({'property': i, 'reason': 'no check yet: contracts for this property are not written'}); continue
    quick = [x for x in mine if x.get('tier', 'quick') == 'quick']
    bnd = sorted({f for x in quick if x.get('bounded') for f in (x.get('fn') or x.get('enforce') or x['name']).split(',')})
    full = sorted({f for x in quick if not x.get('bounded') for f in (x.get('fn') or x.get('enforce') or x['name']).split(',')})
    level = notes.LEVEL.get(i, 'proof' if full else 'model_checking')
    note = notes.NOTE.get(i)
    if not note:
        if not full: note = 'Bounded stand-in: the contracts are checked on the real code for stated sizes only (see evidence), not counted as proved.'
        else:
            note = 'All obligations generated from the real source are discharged for all inputs; callees outside the module are replaced by stated contracts; sequential execution assumed.'
            only = [f for f in bnd if f not in full]
            if only: note += ' Bounded only (stated bound, not counted as proved): ' + ', '.join(only) + '.'
    checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py --thorough ' + i,
                   'technique': 'code contracts on the real C functions, discharged by CBMC (goto-instrument --dfcc / SAT)',
                   'level': level, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 check.py --list > /dev/null', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks compile the unmodified sources of /repo. Known findings: known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
