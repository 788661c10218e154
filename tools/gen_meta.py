#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table"""
import json, sys
sys.path.insert(0, '/verif')
P = []
def prop(id, title, statement, over, text, why, files, mech, claim=True, note='', tech=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), _note=note, _tech=tech, _claim=claim))
exec(open('/verif/tools/props.py').read())
with open('/verif/properties.jsonl', 'w') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
TECH = 'contract-based deductive verification of the LLVM IR of /repo (own VC generator; z3, cvc5)'
m = dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++ --version >/dev/null && g++ --version >/dev/null',
         checks=[dict(property=p['id'], quick_cmd='python3-vt check.py --property %s --tier quick' % p['id'],
                      thorough_cmd='python3-vt check.py --property %s --tier thorough' % p['id'],
                      technique=p['_tech'] or TECH, level='proof', level_note=p['_note']) for p in P if p['_claim'] is True],
         not_applicable=[dict(property=p['id'], reason=p['_claim']) for p in P if p['_claim'] is not True])
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
