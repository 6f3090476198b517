#!/usr/bin/env python3
"""Emits properties.jsonl and MANIFEST.json from tools/props.txt. A property is claimed when it has a harness."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, cur = [], None
for l in open(V + '/tools/props.txt'):
    l = l.rstrip('\n')
    if l.startswith('#') or not l.strip(): continue
    k, v = l.split(':', 1); v = v.strip()
    if k == 'id': cur = {'id': v, 'mech': [], 'obs': []}; props.append(cur)
    elif k == 'mech': n, w = v.rsplit('@', 1); cur['mech'].append({'name': n.strip(), 'where': w.strip()})
    elif k == 'obs': cur['obs'].append(v)
    else: cur[k] = v
def claimed(p): return 'na' not in p and bool([f for f in glob.glob(f'{V}/harness/{p["id"]}*.cpp')])
out, checks, na = [], [], []
LEVEL = ('Bounded: within the stated bounds every value is covered by SMT verdicts (z3) on the code compiled from the current tree; every path model that is sampled is replayed on the native build. '
         'Trusted: the compiler front end, the executor with its C++ runtime and iostream/regex/filesystem models, the solver, and the oracle in the harness. ')
for p in props:
    files = p['files'].split()
    q = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
         'quantifier': {'over': p['over'].split(), 'text': p['quant']},
         'why_tests_cant': p['why'], 'anchors': {'files': files, 'mechanism': p['mech'], 'observe_at': p['obs'], 'hook_needed': None}}
    assert len(q['title']) <= 80, q['title']
    assert p['statement'].count('. ') <= 2, p['id']
    out.append(q)
    if claimed(p):
        bounds = []
        for f in sorted(glob.glob(f'{V}/harness/{p["id"]}*.cpp')):
            for l in open(f):
                m = re.match(r'//@\s*(bounds|outside)\s+(.*)', l)
                if m: bounds.append(('Bounds: ' if m.group(1) == 'bounds' else 'Not covered: ') + m.group(2).strip() + '.')
        checks.append({'property': p['id'], 'quick_cmd': f'python3 run.py {p["id"]} quick', 'thorough_cmd': f'python3 run.py {p["id"]} thorough',
                       'technique': 'symbolic execution of the LLVM IR compiled from the real headers, z3 decides every assertion (bounded)',
                       'level': 'model_checking', 'level_note': LEVEL + ' '.join(bounds)})
    else:
        na.append({'property': p['id'], 'reason': p.get('na', 'no check has been built for this property yet')})
with open(V + '/properties.jsonl', 'w') as f:
    for q in out: f.write(json.dumps(q) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(out), 'properties', len(checks), 'claimed', [n['property'] for n in na])
try:
    import jsonschema
    ps, ms = json.load(open('/root/.vp/PROPERTIES.schema.json')), json.load(open('/root/.vp/MANIFEST.schema.json'))
    for q in out: jsonschema.validate(q, ps)
    jsonschema.validate(json.load(open(V + '/MANIFEST.json')), ms)
except ImportError: pass
