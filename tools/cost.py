#!/usr/bin/env python3
"""Writes tools/cost.json from evidence/*.json (quick runs)."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); p = V + '/tools/cost.json'
out = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(V + '/evidence/C*.json')):
    d = json.load(open(f)); c = d['coverage']
    if d.get('tier') != 'quick' or not c.get('states'): continue
    out[d['property_id'] if 'property_id' in d else d['property']] = f"{c['states']} paths, {c['queries']} queries, {c['solver_seconds']:.0f} s in the solver, {d['wall_s']:.0f} s wall"
json.dump(out, open(p, 'w'), indent=0, sort_keys=True)
