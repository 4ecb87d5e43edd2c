#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, level_note='', na=None, observe=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=level_note, na=na, thorough=thorough))
SP = 'src/utility/Spectral/'; MM = 'src/main/MemoryMan/'; MA = 'src/main/main/'; NU = 'src/utility/numerics/'; CO = 'src/utility/Coordinates/'
exec(open(os.path.join(V, 'tools', 'props.txt')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']),
            why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])))+'\n')
have = [p for p in P if not p['na'] and os.path.exists(os.path.join(V, 'props', p['id']+'.py'))]
checks = []
for p in have:
    c = dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], evidence_file='evidence/%s.json' % p['id'],
        technique='symbolic execution of the compiled LLVM IR of the real code, assertions decided by Z3 (exact normal form / linear / nonlinear real arithmetic)',
        level='model_checking', level_note=p['note'] or 'bounded: every value within the stated bounds, arithmetic over the reals; bounds and what lies outside are in the evidence file and DESIGN.md')
    if p['thorough']: c['thorough_cmd'] = 'python3-vt check.py %s thorough' % p['id']
    checks.append(c)
na = [dict(property=p['id'], reason=p['na'] or 'check not built yet') for p in P if p not in have]
json.dump(dict(version=1, setup_cmd='python3-vt setup.py', checks=checks, not_applicable=na), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
