#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/props.txt, harness directives, known_findings.txt and seeded/*/meta.json."""
import os, re, glob, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = open(V + '/tools/design_head.md').read()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
na = {x['property']: x['reason'] for x in json.load(open(V + '/MANIFEST.json'))['not_applicable']}
fixes = {}
for l in open(V + '/known_findings.txt'):
    m = re.match(r'(fixed|finding): property=(\w+) (.*)', l.strip())
    if m: fixes.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
results = {}
p = V + '/tools/seed_results.txt'
if os.path.exists(p):
    for l in open(p):
        a = l.rstrip('\n').split('\t')
        if len(a) >= 2: results[a[0]] = a[1:]
o += '## Properties\n\n'
for q in props:
    i = q['id']; o += f'### {i} {q["title"]}\n\n{q["statement"]}\n\n'
    if i in na: o += f'Not applicable: {na[i]}\n\n'; continue
    o += f'* Code: {", ".join(q["anchors"]["files"])}: {"; ".join(m["name"] for m in q["anchors"]["mechanism"])}. Observed: {", ".join(q["anchors"]["observe_at"])}.\n'
    o += f'* Why tests cannot settle it: {q["why_tests_cant"]}.\n'
    for f in sorted(glob.glob(f'{V}/harness/{i}*.cpp')):
        d = {}; cases = []; stubs = []
        for l in open(f):
            m = re.match(r'//@\s*(\w+)\s+(.*)', l)
            if not m: continue
            if m.group(1) == 'case': cases.append(m.group(2).split()[0])
            elif m.group(1) == 'stub': stubs.append(m.group(2).strip())
            else: d.setdefault(m.group(1), []).append(m.group(2).strip())
        o += f'* `{os.path.relpath(f, V)}`: cases {", ".join(cases)}' + (f'; stand-ins {", ".join(stubs)}' if stubs else '') + '.\n'
        for k, n in (('oracle', 'Oracle'), ('bounds', 'Bounds'), ('assume', 'Assumed'), ('outside', 'Outside')):
            for t in d.get(k, []): o += f'* {n}: {t}.\n'
    try:
        e = json.load(open(f'{V}/tools/cost.json'))[i]; o += f'* Cost (quick, 8 cores): {e}.\n'
    except (OSError, KeyError): pass
    for k, t in fixes.get(i, []): o += f'* {"Defect repaired" if k == "fixed" else "Known finding"}: {t}.\n'
    o += '\n'
o += '## Planted bugs\n\nEach was written from the property and the code, confirmed to build, to pass the stable tests and to fail its demonstration (`tools/mkseed.py`).\n\n| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = os.path.basename(os.path.dirname(f)); o += f'| {n} | {m["property"]} | {m["what_it_breaks"]} | {m["needs"]} | {" ".join(results.get(n, ["?"]))} |\n'
t = V + '/tools/design_tail.md'
if os.path.exists(t): o += '\n' + open(t).read()
open(V + '/DESIGN.md', 'w').write(o)
