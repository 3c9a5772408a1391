#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand when it changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note, na=na))
exec(open(os.path.join(V, 'tools', 'table.py')).read())
with open(V + '/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps({'id': x['id'], 'title': x['title'], 'statement': x['statement'], 'quantifier': {'over': x['over'], 'text': x['qtext']}, 'why_tests_cant': x['why'],
            'anchors': {'files': x['files'], 'mechanism': [{'name': n, 'where': w} for n, w in x['mech']]}}) + '\n')
checks, na = [], []
for x in P:
    if x['na']: na.append({'property': x['id'], 'reason': x['na']}); continue
    assert os.path.exists('%s/props/%s.cpp' % (V, x['id'])), x['id']
    for fl in x['files']: assert os.path.exists('/repo/' + fl), fl
    checks.append({'property': x['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % x['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % x['id'],
        'technique': 'bounded symbolic execution of the LLVM IR of the real code (own executor) with z3; counterexamples replayed natively', 'level': 'model_checking', 'level_note': x['note']})
json.dump({'version': 1, 'setup_cmd': 'bash symex/build.sh', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks are needed in /repo: harnesses in props/ call the real code, compiled to LLVM bitcode from the current tree on every run.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
# DESIGN.md: per-property sections after the marker
import re, glob
d = open(V + '/DESIGN.md').read().split('<!-- GENERATED -->')[0] + '<!-- GENERATED -->\n## Properties (generated by tools/gen.py)\n'
for x in P:
    d += '\n### %s %s\n%s\n\n' % (x['id'], x['title'], x['statement'])
    if x['na']: d += 'Not applicable: %s\n' % x['na']; continue
    h = open('%s/props/%s.cpp' % (V, x['id'])).read()
    ents = re.findall(r'//@ entry: (\w+)', h)
    d += '* decided by: symbolic execution of the real code through entries %s (`props/%s.cpp`)\n' % (', '.join('`%s`' % e for e in ents), x['id'])
    for k, n in (('bounds', 'bounds'), ('assume', 'assumptions'), ('stub', 'stand-ins'), ('outside', 'outside')):
        for v in re.findall(r'//@ %s: (.*)' % k, h): d += '* %s: %s\n' % (n, v.strip())
    d += '* why tests cannot settle it: %s\n' % x['why']
d += '\n## Planted bugs and the checks that catch them\n\n| id | property | needs | caught |\n|---|---|---|---|\n'
res = json.load(open(V + '/tools/seed_results.json')) if os.path.exists(V + '/tools/seed_results.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    s = os.path.basename(os.path.dirname(m)); j = json.load(open(m)); d += '| %s | %s | %s | %s |\n' % (s, j['property'], j['needs'], res.get(s, '?'))
open(V + '/DESIGN.md', 'w').write(d)
