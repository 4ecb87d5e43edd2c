#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_head.md, the properties, the bounds in props/ and the planted bugs"""
import json, os, sys, importlib, types
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
class Job:
    def __init__(s, src, fn, cfg=(), **k): s.src, s.fn, s.cfg, s.label = os.path.basename(src), fn, cfg, k.get('label') or '%s(%s)' % (fn, ','.join(map(str, cfg)))
eng = types.ModuleType('irx.engine'); eng.Job = Job; sys.modules['irx.engine'] = eng
out = [open(os.path.join(V, 'tools', 'design_head.md')).read(), '\n## Properties\n\nOver "the technique" above each check states what is symbolic (the bounds), what is left out and what is assumed. Quick checks run in seconds to two minutes on 8 cores, thorough ones in up to 15 minutes.\n']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); f = os.path.join(V, 'props', p['id']+'.py')
    out.append('\n### %s: %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if not os.path.exists(f): out.append('\nNot claimed, see MANIFEST.json.\n'); continue
    m = importlib.import_module('props.'+p['id']); q, t = m.jobs('quick'), m.jobs('thorough')
    out.append('\n- code: %s\n- harness: %s (%d jobs quick, %d thorough)\n- bounds: %s\n- outside: %s\n' % ('; '.join('%s in %s' % (x['name'], x['where']) for x in p['anchors']['mechanism']), ', '.join('`harness/%s` %s' % (s, ' '.join(sorted({j.fn for j in t if j.src == s}))) for s in sorted({j.src for j in t})), len(q), len(t), m.BOUNDS, m.OUTSIDE))
    if m.ASSUME: out.append('- assumed: %s\n' % '; '.join(m.ASSUME))
    out.append('- why tests cannot: %s\n' % p['why_tests_cant'])
out.append('\n## Defects found in sgrid\n\nEach was shown against the real code (native replay of the counterexample) and repaired with a `fix:` commit; the check reports it again if the repair is undone.\n\n')
for l in open(os.path.join(V, 'KNOWN_FINDINGS.txt')):
    if l.startswith(('fixed:', 'known:')): out.append('- '+l.strip()+'\n')
out.append(open(os.path.join(V, 'tools', 'design_tail.md')).read())
res = {}
f = os.path.join(V, 'tools', 'seed_results.txt')
if os.path.exists(f):
    for l in open(f):
        w = l.split(None, 1)
        if len(w) == 2: res[w[0]] = w[1].strip()
out.append('\n## Planted bugs\n\nEach is in `seeded/<id>/` with a demonstration; "caught" means the quick check of its property reports it.\n\n| id | property | what breaks | needs | result |\n|---|---|---|---|---|\n')
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json')))
    out.append('| %s | %s | %s | %s | %s |\n' % (s, m['property'], m['what_it_breaks'], m['needs'], res.get(s, 'caught by '+m['property'])))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
