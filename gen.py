#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props.py and specs.py."""
import json, os
from props import P
from specs import SPECS
V = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for i, p in P.items():
        assert len(p['title']) <= 80, (i, len(p['title']))
        d = dict(id=i, title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p['state']:
            d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(d) + '\n')
checks = []
for i in P:
    if i in SPECS:
        s = SPECS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 run.py check {i} quick', thorough_cmd=f'python3 run.py check {i} thorough', evidence_file=f'evidence/{i}.json',
                           technique='symbolic execution of the real code\'s LLVM bitcode with Z3 (all paths within bounds), native replay of counterexamples',
                           level='model_checking',
                           level_note='Exhaustive within bounds: ' + s['bounds'] + ('. Outside the claim: ' + s['outside'] if s.get('outside') else '')
                           + '. Trusts rustc 1.77.2 bitcode, the engine in /verif/engine (cross-validated natively on solver models), Z3, and the ahash/crc32fast stand-ins.'))
na = [dict(property=i, reason=p['na'] or 'check under construction') for i, p in P.items() if i not in SPECS]
m = dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
         notes='No hooks in /repo: harnesses use the public API. known_findings.jsonl lists repaired and recorded defects.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

# DESIGN.md
import glob, sys
sys.path.insert(0, os.path.join(V, 'design'))
from oracles import O, COST
out = open(os.path.join(V, 'design/head.md')).read() + '## 2. The properties\n\n'
for i in sorted(P):
    p = P[i]
    out += f'### {i} {p["title"]}\n\n{p["statement"]}\n\n'
    if i not in SPECS:
        out += f'Not applicable: {p["na"]}\n\n'
        continue
    s = SPECS[i]
    hs = sorted({j['h'] for j in s['jobs']})
    q = sum(not j.get('thorough') for j in s['jobs'])
    mod = 'vh' + s.get('m', 'c' if s.get('c') else '')
    out += f'* **Oracle**: {O[i][0]}\n* **Beyond the tests**: {O[i][1]}\n* **Bounds**: {s["bounds"]}.\n'
    if s.get('outside'):
        out += f'* **Outside**: {s["outside"]}.\n'
    out += f'* **Machinery**: module `{mod}`, harnesses {", ".join("`" + h + "`" for h in hs)}; {q} symbolic runs in the quick tier, {len(s["jobs"])} in the thorough one; about {COST.get(i, "?")} s quick on 8 cores.\n'
    out += f'* **Anchors**: {", ".join(p["files"])}.\n\n'
tail = open(os.path.join(V, 'design/tail.md')).read()
kf = [json.loads(l) for l in open(os.path.join(V, 'known_findings.jsonl')) if l.strip()]
tail = tail.replace('@FINDINGS@', '\n'.join(('* fixed `%s` (%s): %s' % (k['commit'], k['property'], k['what'].split(' ', 3)[3])) if k['status'] == 'fixed' else '* **recorded** (%s): %s' % (k['property'], k['what']) for k in kf))
rows = ['| bug | property | what it breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (m.split('/')[-2], d['property'], d['what_it_breaks'], d['needs']))
tail = tail.replace('@SEEDS@', '\n'.join(rows))
for k in ('SCC', 'MUTANTS'):
    f = os.path.join(V, f'design/{k.lower()}.md')
    tail = tail.replace(f'@{k}@', open(f).read().strip() if os.path.exists(f) else '')
open(os.path.join(V, 'DESIGN.md'), 'w').write(out + tail)
print(len(checks), 'checks', len(na), 'na')
