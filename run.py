#!/usr/bin/env python3
"""Driver of one check:  run.py <property> [quick|thorough]     run.py --replay <file>     run.py --setup
Compiles the property's harness (which includes the headers of /repo's working tree) to LLVM IR, executes every case
symbolically with engine/vsx, confirms every reported counterexample against a native build of the same harness and
the real code, compares sampled path models with native runs, and writes evidence/<property>.json."""
import sys, os, re, json, time, subprocess, tempfile, shutil, fcntl, hashlib, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
ENG, HAR, BUILD = V + '/engine', V + '/harness', V + '/build'
NPROC = int(os.environ.get('VP_JOBS', '0')) or min(8, os.cpu_count() or 1)
CLANG = ['clang++', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-fno-vectorize', '-gline-tables-only', '-DVP_SYM',
         '-isystem', ENG + '/model', '-I' + ENG, '-I' + HAR, '-I' + REPO + '/src', '-include', ENG + '/vp_pre.h', '-Wno-everything', '-emit-llvm']
GXX = ['g++', '-g0', '-w', '-I' + ENG, '-I' + HAR, '-I' + REPO + '/src']

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors='replace', **kw)

def setup():
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-s', '-C', ENG, '-j', str(NPROC), 'B=' + BUILD], timeout=1500)
        if r.returncode: raise SystemExit('engine build failed:\n' + r.stdout[-3000:] + r.stderr[-3000:])

class Unit:
    """one harness translation unit"""
    def __init__(self, path):
        self.path = path; self.name = os.path.basename(path)[:-4]
        self.std = '17'; self.cases = []; self.defs = []; self.pre = []; self.stub = False; self.bounds = []; self.oracle = []; self.outside = []; self.assume = []
        for l in open(path):
            m = re.match(r'//@\s*(\w+)\s*(.*)', l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == 'std': self.std = v
            elif k == 'case':
                p = v.split(); c = {'name': p[0], 'quick': [0], 'thorough': None, 'reach': [], 'time': 300, 'steps': 20000000, 'query': 60, 'canon': 0, 'opt': []}
                for x in p[1:]:
                    a, b = x.split('=', 1)
                    if a in ('quick', 'thorough'): c[a] = self.rng(b)
                    elif a == 'reach': c['reach'] = b.split(',')
                    elif a in ('time', 'steps', 'query', 'canon'): c[a] = int(b)
                if c['thorough'] is None: c['thorough'] = c['quick']
                self.cases.append(c)
            elif k == 'define': self.defs.append('-D' + v)
            elif k == 'stub': self.stub = v  # file linked with override (random stub)
            elif k in ('bounds', 'oracle', 'outside', 'assume'): getattr(self, k).append(v)
    @staticmethod
    def rng(b):
        r = []
        for x in b.split(','):
            if x == '': continue
            m = re.match(r'(-?\d+)-(\d+)$', x)
            r += list(range(int(m.group(1)), int(m.group(2)) + 1)) if m else [int(x)]
        return r
    def build_sym(self, w):
        bc, out = f'{w}/{self.name}.bc', f'{w}/{self.name}.l.bc'
        r = sh(CLANG + ['-std=c++' + self.std] + self.defs + ['-c', self.path, '-o', bc])
        if r.returncode: return 'compile (clang): ' + r.stderr[-4000:]
        cmd = [BUILD + '/vsx', bc, '--link', f'{BUILD}/rt{self.std}.bc']
        if self.stub:
            sb = f'{w}/{self.name}.stub.bc'
            r = sh(CLANG + ['-std=c++' + self.std] + self.defs + ['-c', f'{HAR}/{self.stub}', '-o', sb])
            if r.returncode: return 'compile stub (clang): ' + r.stderr[-4000:]
            cmd += ['--override-link', sb]
        r = sh(cmd + ['--emit', out])
        if r.returncode: return 'emit: ' + r.stderr[-4000:]
        self.bc = out
        return None
    def build_nat(self, w, asan=False):
        o = f'{w}/{self.name}{".asan" if asan else ""}'
        fl = ['-O1', '-fno-inline', '-fno-ipa-cp', '-fno-ipa-sra', '-std=c++' + self.std] + self.defs + (['-fsanitize=address,undefined', '-D_GLIBCXX_ASSERTIONS'] if asan else [])
        if asan: fl += ['-fno-sanitize-recover=all', '-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow']
        cmds = [GXX + fl + ['-c', self.path, '-o', o + '.o']]
        objs = [o + '.o']
        if self.stub:
            weak = []
            for l in open(f'{HAR}/{self.stub}'):
                m = re.match(r'//@weaken\s+(\S+)', l)
                if m: weak += ['--weaken-symbol=' + m.group(1)]
            cmds.append(['objcopy'] + weak + [o + '.o'])
            cmds.append(GXX + fl + ['-c', f'{HAR}/{self.stub}', '-o', o + '.stub.o'])
            objs.append(o + '.stub.o')
        cmds.append(GXX + fl + ['-c', f'{ENG}/vp_native.cpp', '-o', o + '.nat.o'])
        cmds.append(GXX + fl + objs + [o + '.nat.o', '-o', o])
        for c in cmds:
            r = sh(c)
            if r.returncode: return 'native build: ' + r.stderr[-4000:]
        if asan: self.asan = o
        else: self.nat = o
        return None

def native(exe, recs, w, tmo=10):
    """recs: list of (case, arg, [values]); returns list of {'obs': [...], 'end': str}"""
    if not recs: return []
    f = tempfile.NamedTemporaryFile('w', dir=w, delete=False)
    for c, a, v in recs: f.write(' '.join([c, str(a)] + [str(x) for x in v]) + '\n')
    f.close()
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=0', UBSAN_OPTIONS='exitcode=77')
    try: r = sh([exe, f.name, str(tmo)], timeout=60 + tmo * len(recs), env=env, cwd=w)
    except subprocess.TimeoutExpired: return [{'obs': [], 'end': 'DRIVER-TIMEOUT'} for _ in recs]
    res = []
    for l in r.stdout.splitlines():
        if l.startswith('REC '): res.append({'obs': [], 'end': ''})
        elif l.startswith('OBS ') and res: res[-1]['obs'].append(l[4:])
        elif res and (l.split(' ')[0] in ('ASSERT', 'UNCAUGHT', 'CRASH', 'HANG', 'END')):
            if not res[-1]['end']: res[-1]['end'] = l
    while len(res) < len(recs): res.append({'obs': [], 'end': 'MISSING'})
    return res

BAD = ('ASSERT', 'UNCAUGHT', 'CRASH', 'HANG')

def load_known():
    known = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) case=(\S+) label=(\S+) inputs=(\S*) (.*)', l)
            if m: known.append(m.groups())
    return known

def main():
    if sys.argv[1] == '--setup': setup(); print('engine ready'); return 0
    if sys.argv[1] == '--replay': return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    only = sys.argv[3] if len(sys.argv) > 3 else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    w = tempfile.mkdtemp(prefix=f'{prop}-', dir=(os.makedirs(BUILD + '/work', exist_ok=True) or BUILD + '/work'))
    try: return check(prop, tier, seed, t0, w, only)
    finally:
        if not os.environ.get('VP_KEEP'): shutil.rmtree(w, ignore_errors=True)

def check(prop, tier, seed, t0, w, only):
    units = [Unit(f'{HAR}/{f}') for f in sorted(os.listdir(HAR)) if re.match(prop + r'[a-z]?(_\w+)?\.cpp$', f)]
    if not units: print('no harness for ' + prop); return 2
    with cf.ThreadPoolExecutor(NPROC) as ex:
        es = ex.submit(setup)
        nat = {u.name: ex.submit(u.build_nat, w) for u in units}
        try: es.result()
        except SystemExit as e: print(e); return 2
        for u, r in [(u, ex.submit(u.build_sym, w)) for u in units]:
            e = r.result()
            if e: print(f'harness {u.name}: {e}'); return 2
        jobs = []
        for u in units:
            for c in u.cases:
                if only and c['name'] != only.split(':')[0]: continue
                for a in c[tier]:
                    if only and ':' in only and a != int(only.split(':')[1]): continue
                    jobs.append((u, c, a))
        scale = 1 if tier == 'quick' else 6
        stop = []
        def one(j):
            u, c, a = j
            if stop: return j, None, 'skipped after a violation'
            out = f'{w}/{u.name}.{c["name"]}.{a}.json'
            sc = tempfile.mkdtemp(dir=w)
            cmd = [BUILD + '/vsx', u.bc, '--case', c['name'], '--arg', str(a), '--out', out, '--src', REPO + '/', '--time', str(c['time'] * scale), '--max-steps', str(c['steps']), '--canon', str(c['canon']),
                   '--query-time', str(c['query'] * (1 if tier == 'quick' else 4)), '--mem', str(30000 // NPROC * 2), '--traces', '4', '--max-viol', '8', '--scratch', sc]
            try: r = sh(cmd, timeout=c['time'] * scale + 120)
            except subprocess.TimeoutExpired: return j, None, 'executor did not stop'
            if r.returncode or not os.path.exists(out): return j, None, f'executor failed ({r.returncode}): ' + r.stderr[-1500:]
            d = json.load(open(out, errors='replace'))
            if os.environ.get('VP_FAILFAST') and d['violations']: stop.append(1)
            return j, d, r.stderr[-2000:]
        # long jobs first
        order = sorted(jobs, key=lambda j: -j[1]['time'])
        results = list(ex.map(one, order))
        for u in units:
            e = nat[u.name].result()
            if e: print(f'harness {u.name}: {e}'); return 2
    problems, viols, tvalid = [], [], 0
    tot = dict(paths=0, cut=0, instr=0, forks=0, symBranches=0, asserts=0, symAsserts=0, limitCut=0, queries=0, sat=0, unsat=0, unknown=0, cacheHits=0, external=0, solverTime=0.0)
    reach = {}; stubs = set(); funcs = {}; samples = []; percase = []; maxq = 0
    for (u, c, a), r, err in results:
        tag = f'{u.name}.{c["name"]}[{a}]'
        if os.environ.get('VP_VERBOSE') and err: print(tag, err)
        if r is None: problems.append(f'{tag}: {err}'); continue
        for k in tot: tot[k] += r.get(k, 0)
        maxq = max(maxq, r['maxQuery'])
        for k, n in r['reached'].items(): reach[(u.name, c['name'], k)] = reach.get((u.name, c['name'], k), 0) + n
        stubs |= set(r['stubs'])
        for f, ls in r['functions'].items(): funcs.setdefault(f, set()).update(ls)
        for m in r['incomplete']: problems.append(f'{tag}: {m}')
        percase.append({'case': tag, 'paths': r['paths'], 'queries': r['queries'], 'seconds': round(r['time'], 2), 'solver_seconds': round(r['solverTime'], 2)})
        for v in r['violations']: viols.append((u, c, a, v))
    # native confirmation of counterexamples
    confirmed, unconf = [], []
    for u, c, a, v in viols:
        vals = [x[1] for x in v['inputs']]
        vals = [y for x in vals for y in str(x).split('/')]
        n = native(u.nat, [(c['name'], a, vals)], w, 20)[0]
        if n['end'].split(' ')[0] not in BAD and v['kind'] != 'assert':
            if not hasattr(u, 'asan'):
                e = u.build_nat(w, True)
                if e: problems.append(e); continue
            n = native(u.asan, [(c['name'], a, vals)], w, 60)[0]
        (confirmed if n['end'].split(' ')[0] in BAD else unconf).append((u, c, a, v, n))
    # sampled paths are compared with the real code
    byu = {}
    for (u, c, a), r, err in results:
        if r is None: continue
        for t in r['traces']: byu.setdefault(u.name, (u, []))[1].append((c, a, t))
    for nm, (u, ts) in byu.items():
        ns = native(u.nat, [(c['name'], a, [y for x in t['in'] for y in str(x).split('/')]) for c, a, t in ts], w)
        for (c, a, t), n in zip(ts, ns):
            k = n['end'].split(' ')[0]
            if k in BAD:
                vv = {'kind': 'native', 'label': n['end'], 'where': '', 'inputs': [['', x] for x in t['in']]}
                n2 = native(u.nat, [(c['name'], a, [y for x in t['in'] for y in str(x).split('/')])], w, 60)[0]
                if n2['end'].split(' ')[0] in BAD and n2['end'].split(' ')[0] == 'ASSERT': confirmed.append((u, c, a, vv, n2))
                elif n2['end'].split(' ')[0] in BAD: confirmed.append((u, c, a, vv, n2))
                continue
            if not n['end'].startswith('END ok'): problems.append(f'{u.name}.{c["name"]}[{a}]: native replay ended with {n["end"]!r} on {t["in"]}'); continue
            if n['obs'] != t['obs']: problems.append(f'{u.name}.{c["name"]}[{a}]: native run disagrees with the executor on {t["in"]}: {n["obs"]} / {t["obs"]}'); continue
            tvalid += 1
            if len(samples) < 12: samples.append({'case': f'{u.name}.{c["name"]}[{a}]', 'inputs': t['in'][:40], 'observed': t['obs'][:20]})
    # vacuity
    if not only:
        for u in units:
            for c in u.cases:
                for k in c['reach']:
                    if not reach.get((u.name, c['name'], k)): problems.append(f'{u.name}.{c["name"]}: witness {k!r} was not reached')
    known = load_known()
    newv = []
    for x in confirmed:
        u, c, a, v, n = x
        ins = ','.join(str(y[1]) for y in v['inputs'])
        hit = [k for k in known if k[0] == prop and k[1] == c['name'] and (k[2] == '*' or k[2] == v['label'].replace(' ', '_')) and (k[3] in ('*', ins))]
        if hit: print(f'KNOWN-FINDING: property={prop} {hit[0][4]}')
        else: newv.append(x)
    os.makedirs(V + '/replays', exist_ok=True)
    seen = set()
    for i, (u, c, a, v, n) in enumerate(newv):
        key = (u.name, c['name'], v['label'])
        if key in seen: continue
        seen.add(key)
        rp = f'{V}/replays/{prop}-{len(seen)}.json'
        json.dump({'property': prop, 'unit': u.name, 'case': c['name'], 'arg': a, 'inputs': v['inputs'], 'kind': v['kind'], 'label': v['label'], 'where': v['where'], 'native': n['end']}, open(rp, 'w'), indent=1)
        print(f'  {u.name}.{c["name"]}[{a}]: {v["kind"]} "{v["label"]}" {v["where"]}; native: {n["end"]}; inputs {v["inputs"][:30]}')
        print(f'VIOLATION property={prop} replay={rp}')
    for u, c, a, v, n in unconf:
        problems.append(f'{u.name}.{c["name"]}[{a}]: counterexample not reproduced natively ({v["kind"]} {v["label"]} {v["where"]}; native {n["end"]}; inputs {v["inputs"][:30]})')
    wall = time.time() - t0
    fl = {}
    if os.environ.get('VP_LINES'): json.dump({f: sorted(ls) for f, ls in funcs.items()}, open(os.environ['VP_LINES'], 'w'))
    for f, ls in funcs.items():
        fl[f] = len(ls)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'wall_s': round(wall, 2), 'violations': len(seen),
          'coverage': {'states': tot['paths'], 'transitions': tot['instr'], 'traces_validated_against_impl': tvalid, 'samples': samples or ['none'],
                       'states_meaning': 'symbolic paths, each standing for every input satisfying its path condition', 'transitions_meaning': 'IR instructions executed symbolically',
                       'forks': tot['forks'], 'symbolic_branches': tot['symBranches'], 'assertions_evaluated': tot['asserts'], 'assertions_needing_solver': tot['symAsserts'], 'paths_cut_by_preconditions': tot['cut'],
                       'queries': tot['queries'], 'queries_sat': tot['sat'], 'queries_unsat': tot['unsat'], 'queries_unknown': tot['unknown'], 'query_cache_hits': tot['cacheHits'], 'external_solver_calls': tot['external'],
                       'solver_seconds': round(tot['solverTime'], 2), 'slowest_query_seconds': round(maxq, 2),
                       'functions_encoded': {k: fl[k] for k in sorted(fl)}, 'functions_encoded_meaning': 'function of the real source: number of source lines executed',
                       'bounds': [b for u in units for b in u.bounds], 'oracle': [b for u in units for b in u.oracle], 'outside': [b for u in units for b in u.outside],
                       'cases': percase, 'stubs': sorted(stubs), 'reachability_witnesses': {'.'.join(k): n for k, n in sorted(reach.items())},
                       'unconfirmed_or_incomplete': problems[:20]},
          'assumptions': [b for u in units for b in u.assume] + ['clang 18 IR at -O1, x86-64, libstdc++ 13; runtime models in engine/rt.cpp and engine/model'] + sorted(stubs)}
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only and not os.environ.get('VP_NOEVIDENCE'): json.dump(ev, open(f'{V}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop} {tier}: {tot["paths"]} paths, {tot["instr"]} instructions, {tot["queries"]} queries ({tot["solverTime"]:.1f} s solver, max {maxq:.1f} s), {tvalid} traces validated, {wall:.1f} s; slowest ' +
          ', '.join(f'{p["case"]} {p["seconds"]}s' for p in sorted(percase, key=lambda p: -p['seconds'])[:3]))
    if seen: return 1
    if problems:
        for p in problems[:20]: print('INCOMPLETE ' + p[:1500])
        return 2
    return 0

def replay(f):
    r = json.load(open(f))
    w = tempfile.mkdtemp()
    try:
        u = Unit(f'{HAR}/{r["unit"]}.cpp')
        e = u.build_nat(w, r['kind'] not in ('assert', 'native', 'steps'))
        if e: print(e); return 2
        n = native(getattr(u, 'asan', None) or u.nat, [(r['case'], r['arg'], [y for x in r['inputs'] for y in str(x[1]).split('/')])], w, 60)[0]
        print(n)
        return 1 if n['end'].split(' ')[0] in BAD else 0
    finally: shutil.rmtree(w, ignore_errors=True)

sys.exit(main())
