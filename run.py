#!/usr/bin/env python3
"""Decide one property: compile /repo's current sources + harness to bitcode,
symbolically execute every harness entry, replay any counterexample natively.
usage: run.py <ID> [--tier quick|thorough] [--entry h_x] [-v]
exit 0 held, 1 violation (replayed), 2 inconclusive."""
import sys, os, re, json, hashlib, subprocess, time, shutil, tempfile, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SX_REPO', '/repo')
CACHE = os.path.join(V, '.cache'); NCPU = os.cpu_count() or 4
DEFS = ['-DBUILDING_TENNIS', '-DTS_DISABLE_PARALLEL', '-DTS_SOLUTION_DIR="%s"' % REPO, '-DTS_USE_AVX', '-DTS_USE_DEBUG_API', '-DTS_USE_FMA', '-DTS_USE_HOOK', '-DTS_USE_OPENCV', '-DTS_USE_OPENMP', '-DTS_USE_PROFILER', '-DTS_USE_SIMD', '-Dtennis_LIB_EXPORTS', '-DNDEBUG']
ARCH = ['-mavx', '-mavx2', '-mfma']
INC = ['-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + V + '/rt', '-I' + V + '/props']
CLANG = ['clang++', '-std=c++11', '-isystem', V + '/rt/shim', '-isystem', '/usr/include/opencv4', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-fno-pie', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-c', '-emit-llvm']
GROUPS = {
    'utils': 'src/utils/api.cpp src/utils/assert.cpp src/utils/box.cpp src/utils/ctxmgr_lite.cpp src/utils/except.cpp src/utils/implement.cpp src/utils/log.cpp src/utils/platform.cpp src/utils/random.cpp src/utils/static.cpp src/utils/env_vars.cpp',
    'core': '@utils src/core/*.cpp src/core/sync/*.cpp src/global/*.cpp src/memory/flow.cpp src/memory/orz/*.cpp src/kernels/cpu/memory_cpu.cpp src/module/serialization.cpp src/engine/context.cpp',
    'op': '@core src/runtime/operator.cpp src/runtime/stack.cpp src/runtime/runtime.cpp src/backend/name.cpp src/backend/common_function.cpp',
    'runtime': '@core src/runtime/*.cpp src/runtime/inferer/*.cpp src/runtime/instruction/*.cpp src/runtime/inside/*.cpp src/module/*.cpp src/module/io/*.cpp src/board/*.cpp src/backend/name.cpp src/backend/common_function.cpp src/frontend/*.cpp src/compiler/*.cpp src/compiler/fence/*.cpp src/compiler/option/*.cpp',
}
def expand(srcs):
    out = []
    for s in srcs.split():
        if s.startswith('!'):
            bad = [os.path.relpath(x, REPO) for x in glob.glob(os.path.join(REPO, s[1:]))]; out = [o for o in out if o not in bad]
        elif s.startswith('@'): out += [x for x in expand(GROUPS[s[1:]]) if x not in out]
        else:
            g = sorted(glob.glob(os.path.join(REPO, s)))
            out += [os.path.relpath(x, REPO) for x in g if os.path.relpath(x, REPO) not in out]
    return [o for o in out if 'gpu' not in o and 'rknn' not in o and 'cblas' not in o]
def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
def fhash(p):
    with open(p, 'rb') as f: return hashlib.sha1(f.read()).hexdigest()
def hdrhash():
    h = hashlib.sha1()
    for root in (REPO + '/include', REPO + '/src', V + '/rt', V + '/props'):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if root in (V + '/rt',) or f.endswith(('.h', '.hpp', '.inc')) : 
                    p = os.path.join(d, f); h.update(p.encode()); h.update(fhash(p).encode())
    return h.hexdigest()
HH = None
def obj(path, flags, suffix, compiler):
    """compile path -> cached object; returns (objpath, err)"""
    key = hashlib.sha1((HH + fhash(path) + path + ' '.join(flags) + ' '.join(compiler)).encode()).hexdigest()
    o = os.path.join(CACHE, key + suffix)
    if os.path.exists(o): return o, None
    tmp = o + '.%d.tmp%s' % (os.getpid(), suffix)
    r = sh(compiler + flags + [path, '-o', tmp])
    if r.returncode: return None, r.stderr[-3000:]
    os.replace(tmp, o); return o, None
def trim_cache():
    try:
        fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(CACHE + '/*')]
        tot = sum(f[1] for f in fs)
        for m, s, p in sorted(fs):
            if tot < 1500 << 20: break
            os.remove(p); tot -= s
    except OSError: pass
def parse(path):
    sp = {'sources': '', 'entries': [], 'bounds': [], 'assumptions': [], 'outside': [], 'stubs': [], 'native': '', 'defs': ''}
    for l in open(path):
        m = re.match(r'//@\s*(\w+):\s*(.*)', l)
        if not m: continue
        k, v = m.group(1), m.group(2).strip()
        if k == 'sources': sp['sources'] += ' ' + v
        elif k == 'defs': sp['defs'] += ' ' + v
        elif k == 'nativesources': sp['native'] += ' ' + v
        elif k == 'entry':
            e = {'name': v.split()[0], 'reach': [], 'args': [], 'tier': 'quick', 'timeout': 300}
            for t in re.findall(r'(\w+)=("[^"]*"|\S+)', v):
                x = t[1].strip('"')
                if t[0] == 'reach': e['reach'] = x.split(',')
                elif t[0] == 'args': e['args'] = x.split()
                elif t[0] == 'tier': e['tier'] = x
                elif t[0] == 'timeout': e['timeout'] = int(x)
            sp['entries'].append(e)
        elif k in ('bounds', 'assume', 'outside', 'stub'): sp[{'assume': 'assumptions', 'stub': 'stubs'}.get(k, k)].append(v)
    return sp
def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.json')
    if os.path.exists(p):
        for f in json.load(open(p)).get('findings', []):
            if f.get('property') == pid and f.get('status') == 'known': out.append(f)
    return out
def main():
    global HH
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; verbose = '-v' in a
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--entry' in a: only = a[a.index('--entry') + 1]
    t0 = time.time(); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(CACHE, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True); trim_cache()
    hp = os.path.join(V, 'props', pid + '.cpp'); sp = parse(hp); HH = hdrhash()
    work = tempfile.mkdtemp(prefix='vx_%s_' % pid)
    try: rc = check(pid, tier, seed, sp, hp, work, only, verbose, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)
def check(pid, tier, seed, sp, hp, work, only, verbose, t0):
    srcs = expand(sp['sources']); tdef = ['-DSX_THOROUGH'] if tier == 'thorough' else []
    tdef = tdef + sp['defs'].split()
    cflags = DEFS + ARCH + INC; errs = []
    ex = ThreadPoolExecutor(NCPU)
    fb = ex.submit(sh, ['bash', V + '/symex/build.sh'])
    fh = ex.submit(obj, hp, cflags + tdef, '.bc', CLANG); fr = ex.submit(obj, V + '/rt/rt.cpp', cflags, '.bc', CLANG)
    fs = [ex.submit(obj, os.path.join(REPO, s), cflags, '.bc', CLANG) for s in srcs]
    h, he = fh.result(); r, re_ = fr.result(); objs = []
    for s, f in zip(srcs, fs):
        o, e = f.result()
        if o: objs.append(o)
        else: errs.append((s, e))
    b = fb.result()
    if b.returncode: print('symex build failed\n' + b.stderr[-3000:]); return 2
    if he: print('harness does not compile\n' + he); return 2
    if re_: print('runtime does not compile\n' + re_); return 2
    if errs:
        for s, e in errs: print('does not compile to bitcode: %s\n%s' % (s, e[:1500]))
        return 2
    tbuild = time.time() - t0
    def link(os_):
        bc = os.path.join(work, 'all%d.bc' % len(os_))
        l = sh(['llvm-link-18', '-o', bc, h, r] + os_)
        return bc, l
    bc, l = link(objs)
    if l.returncode: print('link failed\n' + l.stderr[-3000:]); return 2
    ents = [e for e in sp['entries'] if (only is None or e['name'] == only) and (tier == 'thorough' or e['tier'] == 'quick')]
    def runent(e, bc=bc):
        out = os.path.join(work, e['name'] + '.json')
        to = e['timeout'] * (6 if tier == 'thorough' else 1)
        cmd = [V + '/symex/bin/symex', bc, '--entry', e['name'], '--out', out, '--timeout', str(to), '--max-viol', '4'] + e['args'] + (['-v'] if verbose else [])
        try: p = subprocess.run(cmd, stdout=None if verbose else subprocess.PIPE, stderr=None if verbose else subprocess.PIPE, text=True, timeout=to + 120)
        except subprocess.TimeoutExpired: return {'entry': e['name'], 'incomplete': ['executor did not stop in time'], 'violations': [], 'reached': [], 'functions': []}
        try: return json.load(open(out))
        except Exception: return {'entry': e['name'], 'incomplete': ['executor failed: rc=%d %s' % (p.returncode, (p.stderr or '')[-500:])], 'violations': [], 'reached': [], 'functions': []}
    big = []; res = list(ex.map(runent, ents))
    # a function outside the listed sources was called: link the whole library and retry those entries
    need = [i for i, x in enumerate(res) if not x['violations'] and any('call to external' in s for s in x['incomplete'])]
    if need and not os.environ.get('SX_NOBIG'):
        alls = [s for s in expand('src/*/*.cpp src/*/*/*.cpp src/*/*/*/*.cpp src/*/*/*/*/*.cpp') if s not in srcs and s != 'src/utils/cpu.cpp']
        more = list(ex.map(lambda s: obj(os.path.join(REPO, s), cflags, '.bc', CLANG), alls))
        bc2, l = link(objs + [m[0] for m in more if m[0]])
        if l.returncode == 0:
            if verbose: print('retrying with whole library')
            for i, x in zip(need, ex.map(lambda i: runent(ents[i], bc2), need)): res[i] = x
            srcs = srcs + [s for s, m in zip(alls, more) if m[0]]
    tsym = time.time() - t0
    nat = {}
    def native():
        if 'exe' in nat: return nat['exe']
        nf = [d for d in DEFS] + ARCH + INC + ['-isystem', '/usr/include/opencv4', '-DSX_NATIVE', '-std=c++11', '-w', '-g1', '-O1', '-fsanitize=address', '-fno-omit-frame-pointer', '-fopenmp']
        comp = ['g++', '-c']
        sched = 'NATIVE_SCHED' in open(hp).read()
        if sched: nf = [f for f in nf if f not in ('-fsanitize=address', '-fopenmp')] + ['-fsanitize=thread', '-I' + V + '/rt/omp']; comp = ['clang++', '-c']
        f1 = ex.submit(obj, hp, nf + tdef, '.o', comp); f2 = ex.submit(obj, V + '/rt/replay.cpp', [f for f in nf if f != '-fsanitize=thread'], '.o', comp)
        nsrc = srcs + [s for s in expand(sp['native']) if s not in srcs]
        ff = [ex.submit(obj, os.path.join(REPO, s), nf, '.o', comp) for s in nsrc + (['src/utils/cpu.cpp'] if 'src/utils/cpu.cpp' not in nsrc else [])]
        if sched: ff.append(ex.submit(obj, V + '/rt/sched.cpp', [f for f in nf if not f.startswith('-fsanitize')], '.o', comp))
        os_ = [f.result() for f in [f1, f2] + ff]
        for o, e in os_:
            if e: print('native build: ' + e[:800])
        exe = os.path.join(work, 'replay')
        wrap = ['-Wl,--wrap=' + s for s in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'malloc', 'free', 'realloc', '__cxa_guard_acquire', '__cxa_guard_release', '__cxa_guard_abort')] if sched else []
        ol = [o for o, e in os_ if o]
        und, dfn = set(), set()
        for l in sh(['nm'] + ol).stdout.splitlines():
            t = l.split()
            if len(t) == 2 and t[0] in 'Uw': und.add(t[1])
            elif len(t) == 3: dfn.add(t[2])
        miss = sorted(x for x in und - dfn if re.match(r'_Z\w*2ts|ts_', x))
        st = os.path.join(work, 'stubs.S')
        with open(st, 'w') as f: f.write('.text\nsx_missing_: call sx_missing\n' + ''.join('.weak %s\n%s: jmp sx_missing_\n' % (m, m) for m in miss) + '.section .note.GNU-stack,"",@progbits\n')
        lk = sh((['g++', '-fopenmp', '-rdynamic'] if sched else ['g++', '-fsanitize=address', '-fopenmp', '-rdynamic']) + wrap + ['-o', exe, st] + ol + ['-ldl', '-lpthread'])
        if lk.returncode: print('native link failed: ' + lk.stderr[-1500:]); nat['exe'] = None
        else:
            nat['exe'] = exe; np = os.path.join(work, 'noop.txt')
            with open(np, 'w') as f: f.write('entry sx_noop\n')
            q = sh(['timeout', '-s', 'KILL', '60', exe, np], cwd=work)
            if q.returncode: print('native replay does not start: %d %s' % (q.returncode, q.stderr[-500:])); nat['exe'] = None
            if os.environ.get('SX_KEEP'): shutil.copy(exe, os.environ['SX_KEEP'])
        return nat['exe']
    viol = []; kf = known(pid); kfseen = {}; unrepro = []
    for x in res:
        for v in x['violations']:
            k = next((f for f in kf if f.get('entry') == x['entry'] and f.get('match') in (v['msg'] + ' @ ' + v['where'])), None)
            if k: kfseen[k['id']] = k; continue
            viol.append((x, v))
    reported = []
    for n, (x, v) in enumerate(viol[:6]):
        d = os.path.join(V, 'replays'); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s_%s_%d.txt' % (pid, x['entry'], n))
        with open(p, 'w') as f:
            f.write('# property %s tier %s\n# %s: %s\n# at %s\nentry %s\n' % (pid, tier, v['kind'], v['msg'].replace('\n', ' '), v['where'], x['entry']))
            for i in v['inputs']: f.write('%s %s %s\n' % (i['type'], re.sub(r'\s', '_', i['name']) or '_', i['value']))
            for t in v['trace']: f.write('# note %s\n' % t)
        exe = native(); ok = False; log = ''
        if exe:
            wd = os.path.join(work, 'cwd%d' % n); os.makedirs(wd, exist_ok=True)
            try:
                q = sh(['timeout', '-s', 'KILL', '60', exe, p], cwd=wd, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=4096', OMP_NUM_THREADS='1', MALLOC_PERTURB_='85'))
                log = (q.stdout + q.stderr); rc_ = q.returncode; ok = rc_ in (66, 67, 132, 134, 135, 136, 139) or rc_ < 0 and rc_ != -9 or 'AddressSanitizer' in log or (rc_ in (137, -9) and v['kind'] in ('nontermination', 'deadlock', 'recursion'))
                log = 'exit %d\n' % q.returncode + log
            except Exception as e: log = str(e)
        with open(p, 'a') as f: f.write('# native replay: %s\n' % ('REPRODUCED' if ok else 'not reproduced') + ''.join('# | %s\n' % l for l in log.splitlines()[:40]))
        (reported if ok else unrepro).append((x, v, p))
    inc = []
    for e, x in zip(ents, res):
        for s in x['incomplete']: inc.append('%s: %s' % (e['name'], s))
        if not x['violations']:
            for r_ in e['reach']:
                if r_ not in x['reached']: inc.append('%s: vacuous, label %s never reached' % (e['name'], r_))
    S = lambda k: sum(x.get(k, 0) for x in res)
    fns = sorted({f for x in res for f in x['functions']})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': {
        'states': S('paths') + S('forks'), 'transitions': S('instructions'), 'traces_validated_against_impl': len(reported) + len(unrepro),
        'samples': [{'entry': x['entry'], 'path_inputs': w} for x in res for w in x.get('samples', [])[:2]][:12],
        'states_rule': 'symbolic states: completed paths plus fork points; each stands for every input satisfying its path condition', 'transitions_rule': 'LLVM instructions executed symbolically',
        'harness_entries': [{'entry': x['entry'], 'paths': x.get('paths', 0), 'queries': x.get('queries', 0), 'assertions': x.get('assertions', 0), 'assertions_folded_by_term_rewriting': x.get('assertions_constant', 0), 'wall_s': round(x.get('wall_s', 0), 2), 'reached': x['reached'], 'reached_required': e['reach']} for e, x in zip(ents, res)],
        'functions_encoded': fns, 'functions_encoded_count': len(fns), 'sources_encoded': srcs, 'bounds': sp['bounds'], 'outside_bounds': sp['outside'], 'stubs': sp['stubs'],
        'solver': 'z3', 'queries': S('queries'), 'queries_sat': S('queries_sat'), 'queries_unsat': S('queries_unsat'), 'queries_unknown': S('queries_unknown'), 'solver_s': round(S('solver_s'), 2),
        'build_s': round(tbuild, 1), 'counterexamples_not_reproduced': len(unrepro), 'inconclusive': inc, 'known_findings_seen': sorted(kfseen)},
        'assumptions': sp['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': len(reported)}
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for k in kf: 
        if k['id'] in kfseen: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for x, v, p in reported:
        print('%s: %s: %s\n   at %s' % (x['entry'], v['kind'], v['msg'], v['where']))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    for x, v, p in unrepro: print('counterexample not reproduced natively (%s: %s) see %s' % (x['entry'], v['msg'], p))
    for i in inc: print('INCONCLUSIVE ' + i)
    print('%s %s: %d entries, %d paths, %d queries, solver %.1fs, build %.1fs, wall %.1fs' % (pid, tier, len(ents), S('paths'), S('queries'), S('solver_s'), tbuild, time.time() - t0))
    if verbose or only:
        for x in res: print('  %-28s paths %6d forks %6d q %6d solver %7.1fs wall %7.1fs asserts %d (%d const) reached %s' % (x['entry'], x.get('paths', 0), x.get('forks', 0), x.get('queries', 0), x.get('solver_s', 0), x.get('wall_s', 0), x.get('assertions', 0), x.get('assertions_constant', 0), x['reached']))
    if reported: return 1
    # exploring less than the bound (a slower tree, a solver timeout) is reported but is not an error; everything else is
    soft = {e['name'] for e, x in zip(ents, res) if x['incomplete']}
    hard = [i for i in inc if not re.search(r'time budget|did not stop in time|path limit|step limit|solver gave no answer|solver unknown|more than \d+ values|unexplored states', i) and not (': vacuous' in i and i.split(':')[0] in soft)]
    return 2 if hard or unrepro else 0
if __name__ == '__main__': main()
