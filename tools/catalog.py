#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list (developer aid; the committed files are what counts)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
T = 'contract-based deductive verification: pre/postconditions, frames and loop invariants on the compiled real functions; obligations discharged by z3/cvc5 for all inputs'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, note='', thm=(), level='proof', technique=T, na=None):
    P.append(dict(d=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['src/' + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech], **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), observe_at=list(observe), hook_needed=hook)),
        note=note, thm=list(thm), level=level, technique=technique, na=na))
NOTE = 'Every obligation is regenerated from the current source on each run. '
exec(open(os.path.join(R, 'tools', 'catalog_data.py')).read())
P.sort(key=lambda p: p['d']['id'])
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p['d']) + '\n')
m = dict(version=1, setup_cmd='true', checks=[dict(property=p['d']['id'], quick_cmd='/verif/check %s --tier quick' % p['d']['id'], thorough_cmd='/verif/check %s --tier thorough' % p['d']['id'],
     technique=p['technique'], level=p['level'], level_note=p['note'], **({'theorems': p['thm']} if p['thm'] else {})) for p in P if not p['na']],
     not_applicable=[dict(property=p['d']['id'], reason=p['na']) for p in P if p['na']],
     notes='Deductive verifier in vc/ (symbolic execution of LLVM IR with contracts, loop invariants, frames, ghost state; z3 and cvc5 as back ends); specifications in props/; replay drivers in replay/.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'claimed')
