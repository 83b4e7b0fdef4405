#!/usr/bin/env -S python3-vt
"""Regenerate properties.jsonl and MANIFEST.json from tools/catalog.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'tools')]
from catalog import CATALOG
from irv.props import PROPS
TECH = 'contract-based deductive verification: contracts and loop invariants on the compiled /repo functions (LLVM IR), VCs discharged by z3/cvc5'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in CATALOG:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['state']:
            a['state'] = p['state']
        if p['observe']:
            a['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in CATALOG:
    if p['id'] in PROPS:
        q = PROPS[p['id']]
        note = p['note'] or q.get('note') or ('Every contract is re-verified from the current sources on every run. Quantified over all inputs; '
                                             'bounded harness runs only supply failing inputs or stand in when code leaves the verifier\'s fragment.')
        if q.get('bounded'):
            note += ' Bounded, not proved: ' + '; '.join(q['bounded']) + '.'
        checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
                           technique=TECH, level=q.get('level', 'proof'), level_note=note))
    else:
        na.append(dict(property=p['id'], reason=p['na'] or 'no contract discharged for it yet'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang++-18 --version >/dev/null && opt-18 --version >/dev/null', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')

t = ['| id | property | decided by | bounded stand-in |', '|---|---|---|---|']
for p in CATALOG:
    q = PROPS.get(p['id'])
    if q:
        t.append('| %s | %s | contracts in `irv/specs/%s` (units `tus/`): %s | %s |' % (
            p['id'], p['title'], ', '.join(x.split(':')[0] for x in q['specs']), p['how'],
            '; '.join('`%s`' % h.src for h in q['harness']())))
    else:
        t.append('| %s | %s | not applicable: %s | |' % (p['id'], p['title'], p['na']))
fx = ['* ' + l.strip()[len('fixed: '):] for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith('fixed:')]
fx += ['* recorded, not repaired: ' + l.strip()[len('known: '):] for l in open(os.path.join(V, 'known_findings.txt')) if l.startswith('known:')]
sd = ['| bug | property | what breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(os.path.join(V, 'tools', 'caught.json'))) if os.path.exists(os.path.join(V, 'tools', 'caught.json')) else {}
S = os.path.join(V, 'seeded')
for d in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, d, 'meta.json')))
    sd.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], caught.get(d, '?')))
o = open(os.path.join(V, 'tools', 'DESIGN.in.md')).read()
o = o.replace('PROPTABLE', '\n'.join(t)).replace('FIXTABLE', '\n'.join(fx)).replace('SEEDTABLE', '\n'.join(sd))
if os.path.isdir(S):
    open(os.path.join(V, 'DESIGN.md'), 'w').write(o)
