#!/usr/bin/env python3
"""Development aid: mutate.py LINES_DIR OUT SEED COUNT [file-regex [prop-regex]]
Samples mutants (operators, constants, dropped statements) of source lines which the checks execute (LINES_DIR/Cxx.json, written by
VP_LINES=... run.py) and runs the checks which execute the line, cheapest first, until one reports a violation. Survivors are appended to OUT."""
import sys, os, re, json, glob, random, subprocess, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ld, out, seed, count = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
frx = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.'); prx = re.compile(sys.argv[6] if len(sys.argv) > 6 else '.')
S = f'/tmp/mut{os.getpid()}'; os.makedirs(S); shutil.copytree('/repo/src', S + '/src')
cover = {}
for f in sorted(glob.glob(ld + '/C*.json')):
    p = os.path.basename(f)[:3]
    wall = json.load(open(f'{V}/evidence/{p}.json'))['wall_s'] if os.path.exists(f'{V}/evidence/{p}.json') else 99
    for fn, ls in json.load(open(f)).items():
        for l in ls: cover.setdefault((fn.split(':')[0], l), set()).add((wall, p))
SW = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-=>&|])<(?![<=])(?= )', '<='), (r'(?<![\->=])>(?![>=])(?= )', '>='), (r'==', '!='), (r'!=', '=='), (r'\+\+', '--'), (r'--', '++'),
      (r'(?<=[\w)\]] )\+(?= )', '-'), (r'(?<=[\w)\]] )-(?= )', '+'), (r'\+=', '-='), (r'-=', '+='), (r'(?<= )\*(?= )', '+'), (r'(?<= )/(?= )', '*'), (r'(?<= )%(?= )', '/'), (r' and ', ' or '), (r' or ', ' and '), (r'&&', '||'), (r'\|\|', '&&'),
      (r'\bnot ', ''), (r'(?<=[(\s])!(?=[\w(])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b1\b', '0'), (r'\b2\b', '1'), (r'\b2\b', '3'), (r' \+ 1\b', ''), (r' - 1\b', ''),
      (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bbreak;', ''), (r'\bcontinue;', ''), (r'\breturn;', ''), (r'\blower\b', 'upper'), (r'\bupper\b', 'lower'), (r'\bfrom\b', 'to'), (r'\bto\b', 'from'), (r'\bfront\b', 'back'), (r'\bback\b', 'front'), (r'<<', '>>'), (r'>>', '<<'), (r'(?<= )\^(?= )', '|'), (r'\bx\b', 'y'), (r'\by\b', 'x')]
cand = []
for (f, l), ps in sorted(cover.items()):
    if not frx.search(f): continue
    ps = sorted(p for p in ps if prx.search(p[1]))
    if not ps: continue
    src = open(f'/repo/src/{f}', newline='', errors='surrogateescape').read().split('\n')
    if l > len(src): continue
    t = src[l - 1]; code = t.split('//')[0]
    if 'template' in code or 'static_assert' in code or '#' in code[:3]: continue
    for rx, to in SW:
        for m in re.finditer(rx, code): cand.append((f, l, t, t[:m.start()] + to + t[m.end():], ps))
    if re.match(r'\s*[\w.\->\[\]():+* ,]+;\r?$', code) and not re.match(r'\s*(return|const|auto|[A-Z]\w* \w+;|using)', code): cand.append((f, l, t, re.match(r'\s*', t).group() + ';' + ('\r' if t.endswith('\r') else ''), ps))
random.seed(seed); random.shuffle(cand)
print(len(cand), 'mutants', flush=True)
stat = dict(killed=0, compile=0, survived=0, noanswer=0)
for f, l, old, new, ps in cand[:count]:
    p = f'{S}/src/{f}'
    ls = open(f'/repo/src/{f}', newline='', errors='surrogateescape').read().split('\n'); ls[l - 1] = new
    open(p, 'w', newline='', errors='surrogateescape').write('\n'.join(ls))
    std = 'c++17' if f == 'validate.h' else 'c++20'
    hdr = '' 
    if f != 'validate.h': hdr = '#include "validate.h"\n'
    r = subprocess.run(['clang++', '-std=' + std, '-fsyntax-only', '-w', '-I', S + '/src', '-x', 'c++', '-'], input=hdr + f'#include "{f}"\n', text=True, capture_output=True)
    if r.returncode: stat['compile'] += 1; shutil.copy(f'/repo/src/{f}', p); continue
    res = []; t0 = time.time()
    for wall, q in ps[:4]:
        e = dict(os.environ, VP_REPO=S, VP_FAILFAST='1', VP_NOEVIDENCE='1')
        try: rr = subprocess.run(['python3', V + '/run.py', q, 'quick'], env=e, capture_output=True, text=True, errors='replace', timeout=600); rc = rr.returncode; o = rr.stdout
        except subprocess.TimeoutExpired: rc = 9; o = ''
        res.append(f'{q}={rc}')
        if rc == 1: break
        if rc == 2 and 'harness' in o and 'error:' in o: rc = 7; break
    k = 'killed' if rc == 1 else 'compile' if rc == 7 else 'noanswer' if any(not x.endswith('=0') for x in res) else 'survived'
    stat[k] += 1
    if k in ('survived', 'noanswer'):
        with open(out, 'a') as fo: fo.write(f'{k} {f}:{l} {" ".join(res)} {time.time()-t0:.0f}s of {[x[1] for x in ps]}\n  - {old.strip()}\n  + {new.strip()}\n' + ('    ' + o.strip()[-600:].replace('\n', '\n    ') + '\n' if k == 'noanswer' else ''))
    print(f'{k} {f}:{l} {res} {time.time()-t0:.0f}s | {new.strip()}', stat, flush=True)
    shutil.copy(f'/repo/src/{f}', p)
shutil.rmtree(S)
