#!/usr/bin/env python3
"""Driver: compiles /repo's current sources and a harness to LLVM IR, runs the symbolic executor (build/sx) on every
entry point, replays counterexamples and sampled paths against a native build, writes evidence and the verdict."""
import os, sys, json, subprocess, tempfile, shutil, time, hashlib, re, concurrent.futures as cf, resource
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(VERIF, 'build')
CLANG = 'clang++'
DEFS = {'CY_HAVE_UNISTD_H','CY_HAVE_INTTYPES_H','CY_HAVE_SYS_UIO_H','CY_HAVE_SYS_EVENTFD_H','CY_SYS_LINUX','CY_HAVE_EPOLL',
        'CY_HAVE_READWRITE_V','CY_HAVE_PIPE2','CY_HAVE_TIMERFD','CY_HAVE_TIMED_LOCK','CY_ENABLE_LOG'}
NPROC = os.cpu_count() or 4
APISYMS = {'sx_sym','sx_range','sx_pick','sx_bytes','sx_assume','sx_assert_','sx_fail','sx_stop','sx_reach','sx_note','sx_notev','sx_concrete','sx_observe','sx_ite',
 'sx_native','sx_heap_live','sx_step_limit','sx_readable','sx_thread_create','sx_self','sx_thread_done','sx_progress','sx_block','sx_idle','sx_preempt','sx_preempt_budget','sx_yield','sx_free_sched','sx_shared','sx_run_threads'}
HEAP = {'malloc':'sx_malloc','calloc':'sx_calloc','free':'sx_free','realloc':'sx_realloc','_Znwm':'sx_Znwm','_Znam':'sx_Znam','_ZdlPv':'sx_ZdlPv','_ZdlPvm':'sx_ZdlPvm','_ZdaPv':'sx_ZdaPv','_ZdaPvm':'sx_ZdaPvm'}

def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)

def ensure_engine():
    if not os.path.exists(os.path.join(B, 'sx')) or any(os.path.getmtime(os.path.join(VERIF,'engine',f)) > os.path.getmtime(os.path.join(B,'sx')) for f in os.listdir(os.path.join(VERIF,'engine'))):
        r = sh(['make', '-C', os.path.join(VERIF, 'engine'), '-j4'], timeout=900)
        if r.returncode: print(r.stdout); sys.exit(2)

def gen_config(incdir, on=(), off=()):
    """cyclone_config.h from the repository's own template"""
    os.makedirs(incdir, exist_ok=True)
    defs = (DEFS | set(on)) - set(off)
    out = []
    for line in open(os.path.join(REPO, 'source/cyclone_config.h.in'), encoding='utf-8-sig', errors='replace'):
        m = re.match(r'\s*#cmakedefine\s+(\w+)(.*)', line)
        if m: out.append('#define %s%s\n' % (m.group(1), m.group(2)) if m.group(1) in defs else '/* #undef %s */\n' % m.group(1))
        else: out.append(line)
    open(os.path.join(incdir, 'cyclone_config.h'), 'w').write(''.join(out))

LIBS = ['cyCore', 'cyEvent', 'cyNetwork', 'cyCrypt', 'cyUtility']
def repo_sources(libs=LIBS):
    r = []
    for l in libs:
        for d, _, fs in os.walk(os.path.join(REPO, 'source', l)):
            r += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(r)

class Build:
    """One harness + /repo sources, as IR and (lazily) natively."""
    def __init__(self, work, name, harness, libs=LIBS, extra=(), on=(), off=(), defines=(), models=(), exclude=(), cxx=(), sched=False):
        self.sched = sched
        self.dir = os.path.join(work, name); os.makedirs(self.dir, exist_ok=True); self.name = name
        self.inc = os.path.join(self.dir, 'inc'); gen_config(self.inc, on, off)
        self.srcs = [s for s in repo_sources(libs) if os.path.basename(s) not in exclude] + [os.path.join(REPO, e) for e in extra]
        self.harness = [os.path.join(VERIF, 'harness', h) for h in ([harness] if isinstance(harness, str) else harness)] + [os.path.join(VERIF, 'rt', m) for m in models]
        self.flags = ['-std=gnu++14', '-include', 'memory', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-U_FORTIFY_SOURCE', '-I' + self.inc] + ['-I%s/source/%s' % (REPO, l) for l in LIBS] + \
            ['-I' + os.path.join(VERIF, 'rt'), '-I' + os.path.join(VERIF, 'harness'), '-I' + REPO, '-w'] + ['-D' + d for d in defines] + list(cxx)
        self.native_exe = {}; self.err = None
    def compile_ir(self):
        out = os.path.join(self.dir, 'all.bc'); jobs = []
        irf = ['-O1', '-g', '-emit-llvm', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-stack-protector', '-fno-threadsafe-statics']
        bcs = []
        for i, s in enumerate(self.srcs + self.harness + [os.path.join(VERIF, 'rt/rt_cxx.cpp')]):
            o = os.path.join(self.dir, 'i%d.bc' % i); bcs.append(o)
            rt = s.endswith('rt_cxx.cpp')
            jobs.append([CLANG, '-c', s, '-o', o] + (['-O1','-fno-builtin','-emit-llvm','-std=gnu++14','-fno-exceptions','-w','-I'+os.path.join(VERIF,'rt')] if rt else irf + self.flags))
        with cf.ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(lambda c: sh(c), jobs))
        for r, j in zip(rs, jobs):
            if r.returncode: self.err = 'cannot compile %s:\n%s' % (j[2], r.stdout[-3000:]); return None
        r = sh(['llvm-link-18' if shutil.which('llvm-link-18') else '/usr/lib/llvm-18/bin/llvm-link', '-o', out] + bcs)
        if r.returncode: self.err = 'link: ' + r.stdout[-3000:]; return None
        self.bc = out; return out
    def native(self, entry, asan=True):
        key = asan
        if key not in self.native_exe:
            d = os.path.join(self.dir, 'n%d' % asan); os.makedirs(d, exist_ok=True)
            san = ['-fsanitize=address', '-fno-omit-frame-pointer'] if asan else []
            objs, jobs = [], []
            for i, s in enumerate(self.srcs + self.harness):
                o = os.path.join(d, 'n%d.o' % i); objs.append(o); jobs.append(['sh', '-c', '"$0" "$1" "$2.bc" && "$3" -O1 -fsanitize=address -w -c "$2.bc" -o "$2"', os.path.join(B, 'sxi'), os.path.join(self.dir, 'i%d.bc' % i), o, CLANG] if self.sched else [CLANG, '-O1', '-g', '-fno-builtin-malloc', '-c', s, '-o', o] + self.flags + san)
            with cf.ThreadPoolExecutor(NPROC) as ex: rs = list(ex.map(lambda c: sh(c), jobs))
            for r, j in zip(rs, jobs):
                if r.returncode: self.err = 'native compile %s: %s' % (j[-1], r.stdout[-2000:]); self.native_exe[key] = None; return None
            ren = dict(HEAP)
            for i in range(len(self.srcs), len(objs)):
                for l in sh(['nm', '--defined-only', objs[i]]).stdout.splitlines():
                    p = l.split()
                    if len(p) == 3 and p[1] in 'TW' and p[2].startswith('sx_') and p[2] not in APISYMS: ren[p[2][3:]] = p[2]
            rf = os.path.join(d, 'ren.txt'); open(rf, 'w').write(''.join('%s %s\n' % kv for kv in ren.items()))
            with cf.ThreadPoolExecutor(NPROC) as ex: list(ex.map(lambda o: sh(['objcopy', '--redefine-syms=' + rf, o]), objs))
            self.native_exe[key] = (d, objs, san)
        if self.native_exe[key] is None: return None
        d, objs, san = self.native_exe[key]; exe = os.path.join(d, 'x_' + entry)
        if not os.path.exists(exe):
            r = sh([CLANG, '-O1', '-g', '-std=gnu++14', '-w', '-DSX_ENTRY=' + entry, '-I' + os.path.join(VERIF, 'rt'), os.path.join(VERIF, 'rt/sx_native.cpp')] + objs + san + ['-o', exe, '-lpthread', '-ldl'])
            if r.returncode: self.err = 'native link: ' + r.stdout[-3000:]; return None
        return exe

def run_native(exe, inputs, path, timeout=70, livelock=False):
    with open(path, 'w') as f:
        for n, h in inputs: f.write('%s %s\n' % (n.replace('\n', ' '), h or '-'))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=300')
    if livelock: env['SX_LIVELOCK'] = '1'
    try: r = sh([exe, path], timeout=timeout, env=env)
    except subprocess.TimeoutExpired: return -1000, 'TIMEOUT'
    return r.returncode, r.stdout

def reproduces(kind, rc, out):
    if rc in (43, 45): return False
    if rc in (42, 44, 99): return True
    if rc < 0 and rc not in (-1000,): return True      # SIGABRT, SIGSEGV, SIGALRM
    if rc == -1000: return kind in ('nontermination', 'recursion')
    return False

class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed; self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=B)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], queries=0, solver_s=0.0, max_query_s=0.0, paths=0, asserts_checked=0, asserts_proved=0, entries={}, functions_encoded=[], bounds=[], reach_witnesses={}, incomplete=[], unsupported=[], diverged=[])
        self.viols, self.known, self.assumptions = [], [], []
        self.kf = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings'] if k['property'] == pid and k.get('status') == 'open']
        self.replaydir = os.path.join(B, 'replay', pid); shutil.rmtree(self.replaydir, ignore_errors=True); os.makedirs(self.replaydir)
        self.unconfirmed = []
    def deadline(self): return 780 if self.tier == 'quick' else 3400
    def symbolic(self, build, entries, time_limit=300, need_reach=(), args=(), mem=5000, validate=True, bound=None, confirm=True):
        """entries: list of (entry, bound text)"""
        if not build.compile_ir(): self.fatal(build.err)
        outs = {}
        left = max(30, self.deadline() - (time.time() - self.t0) - 60); tl = min(time_limit, left)
        def one(e):
            o = os.path.join(build.dir, e[0] + '.json')
            cmd = [os.path.join(B, 'sx'), build.bc, '--entry', e[0], '--out', o, '--time', str(tl), '--mem', str(mem), '--seed', str(self.seed + 1), '--max-viol', '6'] + (['--after', '100000'] if self.kf else []) + list(args)
            try: r = sh(cmd, timeout=tl + 120)
            except subprocess.TimeoutExpired: return e, None, 'hard timeout'
            return e, (json.load(open(o)) if os.path.exists(o) else None), r.stdout
        with cf.ThreadPoolExecutor(max(1, min(NPROC, 7))) as ex: res = list(ex.map(one, entries))
        ninp = 0
        for e, o, log in res:
            if o is None: self.cov['incomplete'].append('%s: engine failed: %s' % (e[0], log[-300:])); print('INCOMPLETE %s %s: %s' % (self.pid, e[0], log[-600:])); continue
            outs[e[0]] = o; c = self.cov
            c['states'] += o['states']; c['transitions'] += o['steps']; c['queries'] += o['queries']; c['queries_cached'] = c.get('queries_cached', 0) + o.get('cached', 0); c['solver_s'] += o['solver_s']; c['max_query_s'] = max(c['max_query_s'], o['max_query_s']); c['paths'] += o['paths']
            c['asserts_checked'] += o['asserts']; c['asserts_proved'] += o['asserts_proved']; c['functions_encoded'] = sorted(set(c['functions_encoded']) | set(o['functions']))
            key = build.name + ':' + e[0]
            c['entries'][key] = dict(paths=o['paths'], states=o['states'], instructions=o['steps'], queries=o['queries'], answered_from_cache=o.get('cached', 0), merged_states=o.get('merged', 0), unsat=o['unsat'], sat=o['sat'], unknown=o['unknown'], solver_s=round(o['solver_s'], 3), wall_s=round(o['wall_s'], 2), complete=not o['incomplete'] and not o['unsupported'], bound=e[1])
            if 'conc' in o: c['entries'][key]['conc'] = o['conc']
            c['reach_witnesses'][key] = o['reach']
            for x in o['incomplete']: c['incomplete'].append(key + ': ' + x)
            for x in o['unsupported']: c['unsupported'].append(key + ': ' + x)
            if o['incomplete'] or o['unsupported']: print('INCOMPLETE %s %s %s' % (self.pid, key, (o['incomplete'] + o['unsupported'])[:4]))
            if not o['violations'] and not o['incomplete'] and not o['unsupported']:
                want = set(e[2]) if len(e) > 2 else {'end'}
                miss = want - set(o['reach'])
                if miss: c['incomplete'].append(key + ': vacuous, witness not reached: %s' % sorted(miss)); print('VACUOUS %s %s %s' % (self.pid, key, sorted(miss)))
            for v in o['violations']: self.confirm(build, e[0], v, confirm)
            if validate and o['samples'] and not self.viols:
                exe = build.native(e[0])
                if not exe: print('NATIVE-BUILD-FAILED', build.err); c['incomplete'].append(key + ': native build failed'); continue
                sm = o['samples'][:8 if self.tier == 'quick' else 24]
                def runs(a):
                    i, s = a; return s, run_native(exe, s['inputs'], os.path.join(build.dir, '%s.s%d.txt' % (e[0], i)))
                with cf.ThreadPoolExecutor(NPROC) as ex: rr = list(ex.map(runs, enumerate(sm)))
                for s, (rc, out) in rr:
                    obs = [l.split()[1] for l in out.splitlines() if l.startswith('OBS ')]
                    if rc == 0 and obs == s['obs']: c['traces_validated_against_impl'] += 1
                    else: c['diverged'].append(dict(entry=key, rc=rc, inputs=s['inputs'][:12], native_obs=obs[:20], sx_obs=s['obs'][:20], out=out[-300:])); print('DIVERGED %s %s rc=%s %s' % (self.pid, key, rc, out[-200:]))
                if len(c['samples']) < 12: c['samples'] += [dict(entry=key, inputs=s['inputs'][:10], observed=s['obs'][:10]) for s in sm[:2]]
        return outs
    def confirm(self, build, entry, v, native=True):
        name = '%s-%s-%d' % (build.name, entry, len(self.viols) + len(self.known) + len(self.unconfirmed)); path = os.path.join(self.replaydir, name + '.txt')
        for k in self.kf:
            if k['entry'] == entry and k['msg'] == v['msg'] and (not k.get('loc') or k['loc'] in v['loc']):
                if k not in self.known: self.known.append(k)
                return
        if len(self.viols) >= 5 or v['kind'] == 'nontermination' and any(x['kind'] == 'nontermination' for x, _ in self.viols): return
        if v['kind'] == 'nontermination' and sum(x['kind'] == 'nontermination' for x in self.unconfirmed) >= 4: self.unconfirmed.append(v); return
        ok, out = True, '(decided by the solver over the interleaving encoding)'
        if native:
            exe = build.native(entry)
            if not exe: print('NATIVE-BUILD-FAILED', build.err); self.unconfirmed.append(v); return
            rc, out = run_native(exe, v['inputs'], path, livelock='livelock' in v['msg']); ok = reproduces(v['kind'], rc, out)
        with open(path, 'w') as f:
            for n, h in v['inputs']: f.write('%s %s\n' % (n, h or '-'))
            f.write('# property %s entry %s\n# %s: %s\n# at %s\n' % (self.pid, entry, v['kind'], v['msg'], v['loc'])); f.write(''.join('# stack %s\n' % x for x in v['stack'])); f.write(''.join('# note %s\n' % x for x in v.get('notes', []))); f.write(''.join('# native: %s\n' % x for x in out.splitlines()[:40]))
        if ok: self.viols.append((v, path))
        else: self.unconfirmed.append(v); print('UNCONFIRMED %s %s: %s at %s (native rc=%s)' % (self.pid, entry, v['msg'], v['loc'], rc if native else '-'))
    def report(self, msg, detail):
        """violation found by other solver-based engines (already replayed)"""
        path = os.path.join(self.replaydir, 'v%d.txt' % len(self.viols)); open(path, 'w').write(msg + '\n' + detail + '\n'); self.viols.append((dict(kind='assert', msg=msg, loc='', stack=[]), path))
    def fatal(self, msg): print('ERROR', self.pid, msg); shutil.rmtree(self.work, ignore_errors=True); sys.exit(2)
    def finish(self, level='model_checking'):
        c = self.cov; c['solver_s'] = round(c['solver_s'], 3); c['max_query_s'] = round(c['max_query_s'], 3); c['bounds'] = sorted({e['bound'] for e in c['entries'].values()} | set(c['bounds']))
        c['unconfirmed_counterexamples'] = [dict(msg=v['msg'], loc=v['loc']) for v in self.unconfirmed]; c['exhaustive'] = not c['incomplete'] and not c['unsupported'] and not self.unconfirmed
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=c, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viols))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        shutil.rmtree(self.work, ignore_errors=True)
        for k in self.known: print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for v, p in self.viols: print('  %s: %s at %s' % (v['kind'], v['msg'], v['loc']))
        if self.viols: print('VIOLATION property=%s replay=%s' % (self.pid, self.viols[0][1])); sys.exit(1)
        print('%s: held; %d paths, %d queries, %.1fs solver, %d native traces, %.1fs%s' % (self.pid, c['paths'], c['queries'], c['solver_s'], c['traces_validated_against_impl'], time.time() - self.t0, '' if c['exhaustive'] else ' (INCOMPLETE)')); sys.exit(0)
