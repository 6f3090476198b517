#!/usr/bin/env python3
"""Development aid: mkseed.py SPEC...  A spec file (python) defines seeds = [dict(id, property, file, edits=[(old,new)], demo, needs, breaks, std)].
Writes /verif/seeded/<id>/ and confirms in a scratch copy of /repo that it builds, passes the stable tests, fails its demonstration and
whether the property's check catches it."""
import sys, os, subprocess, json, shutil, re, time
S = '/tmp/seedrepo'
def run(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def fresh():
    if not os.path.exists(S): run(f'cp -a /repo {S}')
    run(f'git -C {S} checkout -q -- . && rsync -a --exclude _build --exclude .git /repo/ {S}/; cp -a /repo/src/. {S}/src/')
def build_test():
    os.makedirs('/tmp/seedvp', exist_ok=True)
    for f in os.listdir('/opt/vp'):
        t = open('/opt/vp/' + f).read().replace('/repo', S).replace('/opt/vp', '/tmp/seedvp'); open('/tmp/seedvp/' + f, 'w').write(t)
    b = run('bash /tmp/seedvp/build.sh')
    if b.returncode: return 'BUILD FAILED ' + b.stdout[-1500:]
    run('bash /tmp/seedvp/test.sh /tmp/seed.json')
    base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open('/tmp/seed.json'))
    key = [k for k in base if 'pass' in k.lower() or 'stable' in k.lower()][0]
    pk = [k for k in got if 'pass' in k.lower()][0]
    miss = set(base[key]) - set(got[pk])
    return 'tests ok' if not miss else f'TESTS FAILED {sorted(miss)[:5]}'
only = set(sys.argv[2:])
ns = {}; exec(open(sys.argv[1]).read(), ns)
for s in ns['seeds']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    fresh()
    for e in s['edits']:
        f, old, new = e if len(e) == 3 else (s['file'], *e)
        p = f'{S}/src/{f}'; t = open(p, newline='').read(); crlf = '\r\n' in t; old, new = (x.replace('\n', '\r\n') if crlf else x for x in (old, new)); assert t.count(old) == 1, (s['id'], t.count(old), old); open(p, 'w', newline='').write(t.replace(old, new))
    run('git config --global --get safe.directory || true')
    patch = subprocess.run(f'git -C /repo diff --no-index --no-prefix --src-prefix=a/ --dst-prefix=b/ /repo/src {S}/src', shell=True, stdout=subprocess.PIPE).stdout.decode('utf-8', 'surrogateescape')
    patch = patch.replace('a/repo/src/', 'a/src/').replace('a//repo/src/', 'a/src/').replace(f'b{S}/src/', 'b/src/').replace(f'b/{S}/src/', 'b/src/')
    open(d + '/patch.diff', 'w', newline='', errors='surrogateescape').write(patch)
    c = run(f'git -C /repo apply --check {d}/patch.diff'); print(s['id'], 'apply', c.returncode, c.stdout.strip())
    if 'demo' in s and 'validate.h' in s['demo'] and not s.get('noinit'): s['demo'] = s['demo'].replace('int main() {', 'int main(int argc, char** argv) { Generator::init(argc, argv);')
    if 'demo' in s: open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    flags = s.get('flags', '')
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0: the property holds on this input; anything else: it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
g++ -std=c++{s.get('std', 17)} -O1 {flags} -Isrc "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
''')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    a = run(f'cd {S} && bash {d}/demo.sh'); b = run(f'cd /repo && bash {d}/demo.sh')
    print(s['id'], 'demo patched', a.returncode, a.stdout[-200:].strip(), '| unpatched', b.returncode, b.stdout[-300:].strip())
    print(s['id'], build_test())
    t0 = time.time(); r = run(f'cd /verif && VP_REPO={S} python3 run.py {s["property"]} quick'); 
    print(s['id'], 'CHECK', s['property'], 'rc', r.returncode, f'{time.time()-t0:.0f}s', r.stdout[-400:].strip(), flush=True)
fresh()
