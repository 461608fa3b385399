#!/usr/bin/env python3
"""check.py <property>            decide one property on /repo's current tree (VERIF_TIER, VERIF_SEED)
   check.py --replay <file>       run a recorded counterexample against the native build
   check.py --setup               build the executor
   check.py --list"""
import concurrent.futures as cf, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import PROPS
REPO = os.environ.get('VX_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LL = '/usr/lib/llvm-18/bin'
CXX, CC = LL + '/clang++', LL + '/clang'
BUILD = os.path.join(V, '.build')
NCPU = os.cpu_count() or 4
COMMON = ['-g1', '-fsized-deallocation', '-D_GLIBCXX_ASSERTIONS', '-I' + V + '/rt', '-I' + V + '/h', '-I' + REPO + '/code', '-I' + REPO + '/v1compat/code', '-I' + REPO + '/test', '-Wno-everything']
SYM = ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-vectorize', '-fno-slp-vectorize', '-DVX_SYMBOLIC=1', '-I' + V + '/shims/symbolic', '-I' + V + '/shims/include']
NAT = ['-O1', '-c', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern', '-I' + V + '/shims/include']
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize=function,vptr', '-fno-sanitize-recover=all'], 'tsan': ['-fsanitize=thread']}
WRAP = ['malloc', 'calloc', 'aligned_alloc', 'free'] + ['pthread_rwlock_' + x for x in ('rdlock', 'wrlock', 'tryrdlock', 'trywrlock', 'unlock', 'destroy')] + ['pthread_mutex_' + x for x in ('lock', 'trylock', 'unlock', 'destroy')]

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def die(msg, code=2):
    print('ERROR ' + msg); sys.stdout.flush(); sys.exit(code)

def setup():
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = sh(['make', '-j%d' % NCPU, '-C', V + '/engine', 'B=' + BUILD])
        if r.returncode: die('executor does not build:\n' + r.stdout[-3000:])
        rt = BUILD + '/runtime.bc'
        if not os.path.exists(rt) or os.path.getmtime(rt) < os.path.getmtime(V + '/rt/runtime.cpp'):
            r = sh([CXX, '-std=c++17'] + COMMON + SYM[:-2] + [V + '/rt/runtime.cpp', '-o', rt])
            if r.returncode: die('runtime does not build:\n' + r.stdout[-3000:])

def lib_sources(groups):
    out = []
    for g in groups:
        if g == 'lib':
            for f in sorted(glob.glob(REPO + '/code/dynamix/*.cpp')):
                if os.path.basename(f) not in ('dbg_dmp.cpp',): out.append(f) # 'dump' adds it
            out += sorted(glob.glob(REPO + '/code/dnmx/*.c'))
        elif g == 'dump': out.append(REPO + '/code/dynamix/dbg_dmp.cpp')
        elif g == 'v1': out += sorted(glob.glob(REPO + '/v1compat/code/dynamix/v1compat/*.cpp'))
        elif g == 'funcs': out += sorted(glob.glob(REPO + '/code/dnmx/*.c'))
        elif g == 'pmr': out += [REPO + '/code/dynamix/compat/pmr/memory_resource.cpp']
        else: out.append(os.path.join(REPO, g))
    return out

def compile_one(src, obj, mode, extra):
    isc = src.endswith('.c')
    cmd = [CC if isc else CXX, '-std=c11' if isc else '-std=c++17'] + COMMON
    cmd += SYM if mode == 'sym' else NAT + SAN[mode]
    pre = [x for x in extra if x.startswith('-isystem-first=')]
    extra = [x for x in extra if x not in pre]
    for p in pre: cmd[1:1] = ['-I' + p.split('=', 1)[1]]
    r = sh(cmd + extra + [src, '-o', obj])
    return r.returncode, r.stdout, src

class Build:
    def __init__(s, work): s.work = work; s.ex = cf.ThreadPoolExecutor(NCPU); s.futs = {}
    def obj(s, src, mode, extra):
        key = hashlib.sha1((src + mode + '|'.join(extra)).encode()).hexdigest()[:16]
        if key not in s.futs:
            o = '%s/%s-%s.%s' % (s.work, os.path.basename(src), key, 'bc' if mode == 'sym' else 'o')
            s.futs[key] = (s.ex.submit(compile_one, src, o, mode, extra), o)
        return s.futs[key]
    def all(s, srcs, mode, extra): return [s.obj(x, mode, extra) for x in srcs]
    @staticmethod
    def wait(l):
        for f, _ in l:
            rc, out, src = f.result()
            if rc: die('cannot compile %s:\n%s' % (src, out[-4000:]))
        return [o for _, o in l]

def harness_flags(h, work):
    fl = ['-DVX_TIER=%d' % (2 if TIER == 'thorough' else 1)] + list(h.get('flags', [])) + (['-include', V + '/rt/vx_atomic.h'] if h.get('threads') else [])
    if h.get('prep'):
        d = os.path.join(work, 'prep-' + h['name'])
        if not os.path.exists(d): os.makedirs(d); h['prep'](REPO, d)
        fl = ['-isystem-first=' + d] + fl
    return fl

def native(b, h, work, mode='asan'):
    fl = harness_flags(h, work)
    l = b.all(lib_sources(h.get('lib', [])), mode, fl) + [b.obj(V + '/h/' + h['src'], mode, fl)]
    rt = work + '/vx_native-%s.o' % mode
    if mode == 'tsan': # the scheduler itself stays invisible to the race detector
        cmd = [CXX, '-std=c++17', '-DVX_TSAN'] + COMMON + NAT + [V + '/rt/vx_native.cpp', '-o', rt]
    else: cmd = [CXX, '-std=c++17'] + COMMON + NAT + SAN[mode] + [V + '/rt/vx_native.cpp', '-o', rt]
    if not os.path.exists(rt):
        r = sh(cmd)
        if r.returncode: die('native runtime: ' + r.stdout[-2000:])
    objs = b.wait(l)
    exe = work + '/native-%s-%s' % (h['name'], mode)
    r = sh([CXX.replace('clang++', 'clang') if mode == 'tsan' else CXX] + SAN[mode] + objs + [rt, '-o', exe, '-lpthread'] + (['-lstdc++', '-lm'] if mode == 'tsan' else []) + ['-Wl,--wrap=' + w for w in WRAP])
    if r.returncode: die('native link: ' + r.stdout[-3000:])
    return exe

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=78:detect_odr_violation=0', UBSAN_OPTIONS='print_stacktrace=0:exitcode=79', TSAN_OPTIONS='exitcode=80:halt_on_error=1')
def run_native(exe, replay, log=None, timeout=20):
    try:
        r = sh([exe, replay] + ([log] if log else []), env=ENV, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired: return 'timeout', 'timeout'

def reproduced(kind, rc):
    if rc == 'timeout': return kind == 'loop'
    return rc not in (0, 3)

def known_findings():
    out = []
    p = V + '/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'open: property=(\S+) harness=(\S+) key="(.*?)" (.*)$', l.strip())
            if m: out.append(dict(prop=m[1], harness=m[2], key=m[3], text=m[4]))
    return out

def run_harness(prop, h, b, work, evdir):
    """-> dict with result, confirmed violations, validation"""
    fl = harness_flags(h, work)
    bcs = b.all(lib_sources(h.get('lib', [])), 'sym', fl) + [b.obj(V + '/h/' + h['src'], 'sym', fl)]
    bcs = b.wait(bcs)
    out = work + '/out-' + h['name']; os.makedirs(out)
    t = h.get('thorough' if TIER == 'thorough' else 'quick', {})
    dl = t.get('deadline', h.get('deadline', 1500 if TIER == 'thorough' else 420))
    cmd = [BUILD + '/vxe', '--out', out, '--deadline', str(dl), '--workers', str(NCPU), '--max-steps', str(h.get('max_steps', 3000000)), '--samples', str(40)]
    if h.get('threads'): cmd += ['--preempt', str(t.get('preempt', h.get('preempt', 2)))] + (['--race'] if h.get('race', True) else [])
    p = subprocess.Popen(cmd + [BUILD + '/runtime.bc'] + bcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    # the native build goes on meanwhile
    exe = native(b, h, work)
    so = p.communicate()[0]
    if not os.path.exists(out + '/result.json'): die('executor failed on %s:\n%s' % (h['name'], so[-3000:]))
    res = json.load(open(out + '/result.json'))
    r = dict(name=h['name'], res=res, viol=[], unconf=[], problems=[], validated=0, samples=[])
    if so.strip(): r['problems'].append('executor said: ' + so.strip()[-400:])
    # counterexamples are replayed against the real code before they count
    tsan = None
    for i, jf in enumerate(sorted(glob.glob(out + '/viol-*.json'), key=lambda x: int(re.search(r'viol-(\d+)', x)[1]))):
        j = json.load(open(jf)); rp = jf[:-5] + '.replay'
        ex = exe
        if j['kind'] == 'race':
            if tsan is None: tsan = native(b, h, work, 'tsan')
            ex = tsan
        rc, txt = run_native(ex, rp)
        keep = '%s/%s-%s-%d.replay' % (evdir, prop, h['name'], i)
        with open(keep, 'w') as f:
            f.write('#property %s harness %s kind %s\n#%s\n' % (prop, h['name'], j['kind'], j['key'])); f.write(open(rp).read())
        j['replay'] = keep; j['native'] = rc; j['native_out'] = '\n'.join([l for l in txt.splitlines() if l.strip()][:6])
        (r['viol'] if reproduced(j['kind'], rc) else r['unconf']).append(j)
    # sampled paths: the encoding and the native build must log the same values
    paths = []
    for sf in sorted(glob.glob(out + '/samples.*')):
        cur = None; mode = None
        for l in open(sf):
            l = l.rstrip('\n')
            if l == '@path': cur = dict(rep=[], log=[]); mode = 'rep'
            elif l == '@log': mode = 'log'
            elif l == '@end':
                if cur is not None: paths.append(cur)
                cur = None
            elif cur is not None: cur[mode].append(l)
    random.Random(SEED).shuffle(paths)
    nval = t.get('validate', 24 if TIER != 'thorough' else 150)
    def val(k):
        i, pth = k
        rp = '%s/val-%d.replay' % (out, i); open(rp, 'w').write('\n'.join(pth['rep']) + '\n')
        lg = rp + '.log'; rc, txt = run_native(exe, rp, lg, 60)
        got = open(lg).read().split('\n')[:-1] if os.path.exists(lg) else []
        return rc, got, pth, txt
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for rc, got, pth, txt in ex.map(val, enumerate(paths[:nval])):
            if rc != 0 or got != pth['log']: r['problems'].append('native run of a path which holds in the encoding: exit %s, log %s vs %s; %s' % (rc, got[:8], pth['log'][:8], txt[-400:]))
            else: r['validated'] += 1
    for pth in paths[:2]: r['samples'].append(dict(harness=h['name'], inputs=pth['rep'][:24], log=pth['log'][:12]))
    if res['inconclusive']: r['problems'].append('inconclusive: ' + res['inconclusive_why'])
    if res['stop'] == 2: r['problems'].append('time bound of %ss reached with work left' % dl)
    if res['unknown']: r['problems'].append('%d solver queries unanswered' % res['unknown'])
    if not r['viol'] and not r['unconf']:
        for l in h.get('reach', ['end']):
            if l not in res['reached']: r['problems'].append('vacuity: point "%s" is never reached' % l)
        if res['paths'] == 0: r['problems'].append('vacuity: no path completes')
    return r

def check(prop):
    t0 = time.time()
    if prop not in PROPS: die('no such check: ' + prop)
    P = PROPS[prop]
    setup()
    evdir = V + '/evidence/replay'; os.makedirs(evdir, exist_ok=True)
    for f in glob.glob('%s/%s-*.replay' % (evdir, prop)): os.remove(f)
    base = os.path.join(BUILD, 'run'); os.makedirs(base, exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + '-', dir=base)
    results = []
    try:
        b = Build(work)
        hs = [h for h in P['harnesses'] if TIER == 'thorough' or not h.get('thorough_only')]
        for h in hs: # queue all compilations up front
            fl = harness_flags(h, work); b.all(lib_sources(h.get('lib', [])), 'sym', fl); b.obj(V + '/h/' + h['src'], 'sym', fl)
        for h in hs:
            r = run_harness(prop, h, b, work, evdir); results.append(r)
            print('%s %s: %d paths, %d queries (%d z3 calls, %.1fs), %d functions of the repository, %d native replays agree, %.1fs%s' % (prop, h['name'], r['res']['paths'], r['res']['queries'], r['res']['z3_calls'], r['res']['solver_s'], len(r['res']['functions']), r['validated'], r['res']['wall_s'], '; ' + '; '.join(r['problems']) if r['problems'] else ''))
            sys.stdout.flush()
            if any(not is_known(prop, h, v) for v in r['viol']) and TIER != 'thorough': break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = []; fresh = []; unconf = []; problems = []
    for r in results:
        for v in r['viol']:
            k = is_known(prop, dict(name=r['name']), v)
            (known if k else fresh).append((r, v, k))
        for v in r['unconf']: unconf.append((r, v))
        problems += ['%s: %s' % (r['name'], x) for x in r['problems']]
    S = lambda k: sum(r['res'][k] for r in results)
    fns = sorted({f for r in results for f in r['res']['functions']})
    ev = dict(property=prop, tier='thorough' if TIER == 'thorough' else 'quick', seed=SEED, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(fresh),
        assumptions=P.get('assumptions', []) + ['library sources are compiled from /repo with stand-ins for the headers of itlib and splat, which the repository does not carry (DESIGN.md)', 'clang 18 lowering to LLVM IR, the executor in /verif/engine and z3 4.8.12 are trusted; sampled paths are compared with the native build on every run'],
        coverage=dict(states=S('forks') + len(results), transitions=S('instructions'), traces_validated_against_impl=sum(r['validated'] for r in results) + len(fresh) + len(known),
            samples=[s for r in results for s in r['samples']][:6], paths_completed=S('paths'), paths_assumed_away=S('assumed_away'), solver_queries=S('queries'), z3_calls=S('z3_calls'), sat=S('sat'), unsat=S('unsat'), unknown=S('unknown'), solver_s=round(S('solver_s'), 2),
            bounds=[dict(harness=h['name'], bound=h['bounds']) for h in P['harnesses'] if TIER == 'thorough' or not h.get('thorough_only')], functions_encoded=len(fns), functions=fns, reach_witnesses={r['name']: r['res']['reached'] for r in results},
            schedule_points=S('sched_points'), symbols_max=max(r['res']['max_symbols'] for r in results), problems=problems, outside=P.get('outside', ''), unconfirmed=[v['key'] for _, v in unconf], exhaustive=not problems and not fresh))
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, prop), 'w'), indent=1)
    seen = set()
    for r, v, k in known:
        if k['key'] not in seen: print('KNOWN-FINDING: property=%s %s' % (prop, k['text'])); seen.add(k['key'])
    seen = set()
    for r, v, _ in fresh:
        if v['key'] in seen: continue
        seen.add(v['key']); print('  %s: %s\n    native: exit %s: %s\n%s' % (r['name'], v['key'], v['native'], v['native_out'][:300].replace('\n', ' | '), v['stack'][:1500]))
    for r, v in unconf: print('  not reproduced natively (%s): %s: %s\n%s' % (v['native'], r['name'], v['key'], v['stack'][:1200]))
    if fresh:
        print('VIOLATION property=%s replay=%s' % (prop, fresh[0][1]['replay'])); return 1
    if unconf: print('ERROR counterexamples which the native build does not show'); return 2
    if problems:
        for p in problems: print('ERROR ' + p)
        return 2
    print('OK property=%s (%.1fs)' % (prop, time.time() - t0)); return 0

def is_known(prop, h, v):
    for k in known_findings():
        if k['prop'] == prop and k['harness'] == h['name'] and k['key'] == v['key']: return k
    return None

def replay(path):
    l = open(path).readline().split(); prop, hn, kind = l[1], l[3], l[5]
    h = [x for x in PROPS[prop]['harnesses'] if x['name'] == hn][0]
    work = tempfile.mkdtemp(prefix='replay-'); 
    try:
        exe = native(Build(work), h, work, 'tsan' if kind == 'race' else 'asan'); rc, txt = run_native(exe, path); print(txt); print('exit', rc); return 1 if reproduced(kind, rc) else 0
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == '--setup': setup(); sys.exit(0)
    if a[0] == '--list': print('\n'.join(sorted(PROPS))); sys.exit(0)
    if a[0] == '--replay': sys.exit(replay(a[1]))
    sys.exit(check(a[0]))
