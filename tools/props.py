#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = 'include/NazaraUtils/'
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note=None, na=None, state=None, level='proof'):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': [INC + f for f in files], 'mechanism': [{'name': n, 'where': INC + w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': INC + c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append((d, note, na, level))


exec(open(os.path.join(ROOT, 'tools', 'props_data.py')).read())

TECH = 'contracts on the real functions, deductive verification (VC generation over their LLVM IR, z3/cvc5)'
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d, _, _, _ in P:
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'One engine (engine/), one contract file per property (contracts/). See DESIGN.md.'}
for d, note, na, level in P:
    if na:
        man['not_applicable'].append({'property': d['id'], 'reason': na})
    else:
        c = 'python3-vt engine/check.py %s --tier ' % d['id']
        man['checks'].append({'property': d['id'], 'quick_cmd': c + 'quick', 'thorough_cmd': c + 'thorough', 'technique': TECH, 'level': level, 'level_note': note})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(man['checks']), 'checks', len(man['not_applicable']), 'not applicable')
