#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and harness/meta.json (run: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, level='proof', note='', bounds=(), assumptions=(), state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  level=level, note=note, bounds=list(bounds), assumptions=list(assumptions), state=list(state)))

exec(open(os.path.join(V, 'tools', 'catalogue.py')).read())

NOTE = ('Deductive proof: VCs generated from the LLVM IR of the current /repo sources, discharged by z3/cvc5 for all inputs'
        ' of every proof function (vcproof_*) of the harness; the evidence lists functions, obligations, back ends and what stayed bounded. ')
import re
have = {re.match(r'([A-Z]\d+)', f).group(1) for f in os.listdir(os.path.join(V, 'harness')) if f.endswith('.cc')}
for p in P:
    for f in sorted(os.listdir(os.path.join(V, 'harness'))):
        if f.endswith('.cc') and re.match(p['id'] + r'\D', f):
            for l in open(os.path.join(V, 'harness', f)):
                m = re.match(r'// VC-(BOUND|ASSUME): (.*)', l)
                if m: p['bounds' if m.group(1) == 'BOUND' else 'assumptions'].append(m.group(2).strip())
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
for p in P:
    if p['id'] in have:
        checks.append({'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
                       'technique': 'contract-based deductive verification (function contracts on the real code, SMT-discharged VCs over its LLVM IR)',
                       'level': p['level'], 'level_note': NOTE + p['note'] + (' Bounded parts: ' + '; '.join(p['bounds']) + '.' if p['bounds'] else '')})
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no contract within reach of the VC generator has been written for this property')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
json.dump({p['id']: {'level': p['level'], 'assumptions': p['assumptions'], 'bounds': p['bounds']} for p in P if p['id'] in have},
          open(os.path.join(V, 'harness', 'meta.json'), 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
