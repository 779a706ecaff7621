#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, outputs are committed)."""
import json

P = []

def prop(id, title, statement, over, text, why, files, mech, technique, level, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, level=level, note=note))

NA = []

def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=None))
    NA.append(dict(property=id, reason=reason))

VG = 'value-graph analysis of the SSA form'
REAL = ('Obligations are discharged for symbolic extents, positions and values over exact reals (element-wise operations and reductions once more over integer elements); '
        'what can be neither discharged nor refuted is listed as undecided in the evidence and raises no alarm. '
        'Trusts go/types, x/tools/go/ssa and the term rules in /verif/analyzer.')

exec(open('/verif/proptable.py').read())

with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')

m = dict(version=1, setup_cmd='bash check.sh build', checks=[
    dict(property=p['id'], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash check.sh {p['id']}",
         technique=p['technique'], level=p['level'], level_note=p['note'])
    for p in P if p['technique']], not_applicable=NA,
    notes='No hooks: every check reads /repo\'s source only. See DESIGN.md.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
assert all(len(p['title']) <= 80 for p in P), [p['title'] for p in P if len(p['title']) > 80]
print(len(P), 'properties,', len(m['checks']), 'checks')
