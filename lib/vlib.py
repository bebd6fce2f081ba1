"""Framework shared by all checks: scratch builds from /repo's working tree, CBMC runs, native replay of
counterexamples, evidence, verdict. Only exit 0 (held on everything explored) and exit 1 (+VIOLATION line) are used."""
import os, sys, json, time, subprocess, shutil, tempfile, re, traceback, threading, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CIMPL = REPO + '/c-impl'
SIDH = CIMPL + '/PQCrypto-SIDH'
SRC = SIDH + '/src'
HARN = VERIF + '/harness'
SIZES = (434, 503, 610, 751)
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)
QUICK_BUDGET = 780        # seconds of wall clock a quick check allows itself (hard limit outside: 900)

BASE_DEFS = ['-D_AMD64_', '-D__NIX__', '-DNDEBUG']
FAST_DEFS = BASE_DEFS + ['-D_FAST_', '-D_MULX_', '-D_ADX_']
GEN_DEFS = BASE_DEFS + ['-D_GENERIC_']
POIK_DEFS = FAST_DEFS + ['-DTHREADING']


def run(cmd, timeout=None, cwd=None, env=None, inp=None, mem_gb=None):
    """returns (rc, stdout, stderr, seconds); rc=None on timeout"""
    t = time.time()
    if mem_gb:
        cmd = ['bash', '-c', 'ulimit -v %d; exec "$@"' % (int(mem_gb * 1024 * 1024)), 'x'] + list(cmd)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if inp is not None else subprocess.DEVNULL,
                         cwd=cwd, env=env, start_new_session=True)
    try:
        o, e = p.communicate(inp, timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        import signal
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace'), time.time() - t


class Job:
    """one obligation's outcome"""
    def __init__(self, name, **kw):
        self.name = name
        self.verdict = 'pending'      # holds | violated | known | inconclusive | skipped | pending
        self.detail = ''
        self.seconds = 0.0
        self.solver_s = 0.0
        self.queries = 0
        self.engine = ''
        self.functions = []
        self.bounds = ''
        self.replay = None
        self.reach = None
        self.__dict__.update(kw)

    def dict(self):
        return {k: v for k, v in dict(name=self.name, verdict=self.verdict, detail=self.detail[:2000], seconds=round(self.seconds, 2),
                solver_seconds=round(self.solver_s, 2), queries=self.queries, engine=self.engine, functions=self.functions,
                bounds=self.bounds, replay=self.replay, vacuity_witness=self.reach).items() if v not in ('', None, [])}


class Check:
    def __init__(self, pid, level, statement_bounds, budget=None, stubs=None):
        self.pid, self.level = pid, level
        self.bounds = statement_bounds
        self.stubs = stubs or []
        self.t0 = time.time()
        self.tier = 'thorough' if '--thorough' in sys.argv or TIER == 'thorough' else 'quick'
        self.quick = self.tier == 'quick'
        self.budget = budget or (QUICK_BUDGET if self.quick else 6 * 3600)
        self.dir = tempfile.mkdtemp(prefix='vp_%s_' % pid)
        self.jobs = []
        self.extra = {}
        self.lock = threading.Lock()
        self.known = load_known(pid)

    def left(self):
        return max(1.0, self.budget - (time.time() - self.t0))

    def subdir(self, name):
        d = os.path.join(self.dir, re.sub(r'[^A-Za-z0-9_.-]', '_', name))
        os.makedirs(d, exist_ok=True)
        return d

    def add(self, job):
        with self.lock:
            self.jobs.append(job)
        return job

    def parallel(self, thunks, n=None):
        """thunks: callables returning a Job or list of Jobs; exceptions become inconclusive jobs"""
        def guard(t):
            if any(j.verdict == 'violated' and not any(k['job'] == j.name for k in self.known) for j in self.jobs):
                self.add(Job(getattr(t, 'vname', 'job'), verdict='skipped', detail='a violation was already confirmed'))
                return
            try:
                r = t()
            except Exception as e:
                r = Job(getattr(t, 'vname', 'job'), verdict='inconclusive', detail='internal: ' + ''.join(traceback.format_exception_only(e)) + traceback.format_exc()[-1500:])
            for j in (r if isinstance(r, list) else [r]):
                if j is not None: self.add(j)
        with ThreadPoolExecutor(n or NCPU) as ex:
            list(ex.map(guard, thunks))

    def save_replay(self, name, files, script):
        """store a replay directory under evidence/replay and return its run script path"""
        d = os.path.join(VERIF, 'evidence', 'replay', self.pid, re.sub(r'[^A-Za-z0-9_.-]', '_', name))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for fn, content in files.items():
            if isinstance(content, bytes): open(os.path.join(d, fn), 'wb').write(content)
            else: open(os.path.join(d, fn), 'w').write(content)
        p = os.path.join(d, 'replay.sh')
        open(p, 'w').write('#!/bin/bash\n# exits nonzero when the violation reproduces against the real code in /repo\nset -u\ncd "$(dirname "$0")"\n' + script)
        os.chmod(p, 0o755)
        return p

    def finish(self):
        wall = time.time() - self.t0
        viol = [j for j in self.jobs if j.verdict == 'violated']
        real = []
        for j in viol:
            k = next((k for k in self.known if k['job'] == j.name and (not k.get('match') or k['match'] in j.detail)), None)
            if k:
                j.verdict = 'known'
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
            else:
                real.append(j)
        cnt = {}
        for j in self.jobs: cnt[j.verdict] = cnt.get(j.verdict, 0) + 1
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': SEED, 'level': 'other',
            'violations': len(real), 'assumptions': self.stubs,
            'coverage': {
                'explanation': 'Bounded symbolic checking of the real code: every obligation below is decided by a SAT/SMT verdict over all values within its bounds (' + self.level + ').',
                'technique': 'solver-based checking of the real code (symbolic execution + SMT/SAT verdict)',
                'bounds': self.bounds, 'stubs_and_assumptions': self.stubs,
                'obligations': len(self.jobs), 'verdicts': cnt,
                'queries_discharged': sum(j.queries for j in self.jobs if j.verdict in ('holds', 'known')),
                'solver_seconds': round(sum(j.solver_s for j in self.jobs), 2),
                'functions_encoded': sorted({f for j in self.jobs for f in j.functions}),
                'not_decided': [j.name for j in self.jobs if j.verdict in ('inconclusive', 'skipped', 'pending')],
                'details': [j.dict() for j in self.jobs], **self.extra,
            },
            'wall_s': round(wall, 2),
        }
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open('%s/evidence/%s.json' % (VERIF, self.pid), 'w') as f: json.dump(ev, f, indent=1)
        for j in self.jobs:
            if j.verdict != 'holds':
                print('  [%s] %s: %s' % (j.verdict, j.name, j.detail.replace('\n', ' | ')[:600]))
        print('%s %s: %s in %.1fs' % (self.pid, self.tier, ', '.join('%s=%d' % kv for kv in sorted(cnt.items())), wall))
        if not os.environ.get('VERIF_KEEP'): shutil.rmtree(self.dir, ignore_errors=True)
        for j in real:
            print('VIOLATION property=%s replay=%s' % (self.pid, j.replay or ''))
        sys.stdout.flush()
        os._exit(1 if real else 0)


def load_known(pid):
    out = []
    try:
        for line in open(VERIF + '/known-findings.jsonl'):
            line = line.strip()
            if not line or line.startswith('#') or line.startswith('fixed:'): continue
            d = json.loads(line)
            if d.get('property') == pid: out.append(d)
    except FileNotFoundError:
        pass
    return out


def overlay(dst, params, src=None, split_union=True):
    """scratch view of src/ (symlinks) with parameter macros of poik.h overridden: this is how sizes are bounded.
    Returns the list of macros that could be overridden."""
    src = src or SRC
    subprocess.check_call(['cp', '-rs', src, dst])
    done = []
    p = os.path.join(dst, 'poik.h')
    os.unlink(p)
    t = open(os.path.join(src, 'poik.h')).read()
    for k, v in params.items():
        t, n = re.subn(r'(#\s*define\s+%s\s+)\S+' % k, r'\g<1>%s' % v, t)
        if n: done.append(k)
    if split_union:      # CBMC mishandles several union members inside arrays; the model gives each member its own storage
        t = re.sub(r'(?<!typedef )\bunion\s*\{', 'struct {', t)
    open(p, 'w').write(t)
    p = os.path.join(dst, 'config.h')     # goto-cc reads `unsigned ... mode(TI)` as a 32-bit type: spell the same type differently
    t = open(p).read()
    os.unlink(p)
    open(p, 'w').write(re.sub(r'typedef\s+unsigned\s+uint128_t\s+__attribute__\s*\(\(mode\(TI\)\)\)', 'typedef unsigned __int128 uint128_t', t))
    return done


def stub_types(d, hpath, cfg, inc, defs, replace):
    """names of replaced functions whose type no longer agrees with their stand-in (then nothing may be concluded)"""
    if not replace: return []
    f = os.path.join(d, 'types.c')
    open(f, 'w').write('#include "%s"\n' % hpath + ''.join('_Static_assert(__builtin_types_compatible_p(__typeof__(%s), __typeof__(%s)), "STUBTYPE %s");\n' % (a, b, a) for a, b in replace))
    rc, o, e, _ = run(['clang', '-DVSYMX', '-D__NO_CTYPE', '-w', '-std=gnu11', '-fsyntax-only', '-ferror-limit=0', '-march=x86-64-v3', *cfg, *inc, *['-D' + x for x in defs], f], timeout=60)
    return re.findall(r'error: static assertion failed.*STUBTYPE (\w+)', e)


# ------------------------------------------------------------------ CBMC

def cbmc(chk, name, harness, entry='harness', defs=(), replace=(), unwind=None, flags=(), timeout=300, functions=(), bounds='',
         sources=(), config=None, native_libs=(), native_flags=(), expect_reach=True, includes=(), unwindset=(), replay_san=True,
         mem_gb=None, solver=None, remove_bodies=(), native_sources=None, native_cflags=('-O0',), native_defs=(), params=None):
    """Build `harness` (a C file in /verif/harness including real sources) with goto-cc, decide with cbmc, replay on failure.
    replace: list of (function, stub) whose calls are redirected (in the native replay too)."""
    job = Job(name, engine='CBMC', functions=list(functions), bounds=bounds)
    t0 = time.time()
    d = chk.subdir(name)
    cfg = list(config if config is not None else POIK_DEFS)
    srcdir = os.path.join(d, 'src')
    overlay(srcdir, params or {})
    if params:
        job.bounds = (job.bounds + '; ' if job.bounds else '') + ', '.join('%s=%s' % kv for kv in params.items())
    inc = ['-I' + HARN, '-I' + srcdir] + ['-I' + i for i in includes]
    hpath = harness if os.path.isabs(harness) else os.path.join(HARN, harness)
    bad = stub_types(d, hpath, cfg, inc, defs, replace)
    if bad:
        job.verdict, job.detail = 'inconclusive', 'interface changed: ' + ', '.join(bad)
        return job
    srcs = [hpath] + list(sources)
    gb = os.path.join(d, 'h.gb')
    rc, o, e, _ = run(['goto-cc', '-DVCBMC', '-std=gnu11', *cfg, *inc, *['-D' + x for x in defs], '--function', entry, *srcs, '-o', gb], timeout=120)
    if rc != 0:
        # anchors missing or unsupported construct: not decided (never an alarm)
        job.verdict, job.detail = 'inconclusive', 'goto-cc failed: ' + (e + o)[-800:]
        return job
    cur = gb
    if replace:
        nxt = os.path.join(d, 'r.gb')
        rc, o, e, _ = run(['goto-instrument', *sum((['--replace-calls', '%s:%s' % (a, b)] for a, b in replace), []), cur, nxt], timeout=120)
        if rc != 0:
            job.verdict, job.detail = 'inconclusive', 'goto-instrument failed: ' + (e + o)[-800:]
            return job
        cur = nxt
    cmd = ['cbmc', cur, '--json-ui', '--no-malloc-may-fail', '--slice-formula', '--object-bits', '12', '--drop-unused-functions']
    if '--standard' in flags:
        flags = [f for f in flags if f != '--standard']
        cmd += ['--no-signed-overflow-check', '--no-undefined-shift-check', '--no-pointer-primitive-check'] 
    else:
        cmd += ['--no-standard-checks']
    cmd += ['--unwinding-assertions']
    if unwind: cmd += ['--unwind', str(unwind)]
    for u in unwindset: cmd += ['--unwindset', u]
    cmd += list(flags)
    if solver: cmd += solver
    to = min(timeout, chk.left())
    rc, o, e, secs = run(cmd, timeout=to, mem_gb=mem_gb)
    job.seconds = time.time() - t0
    job.solver_s = secs
    if rc is None:
        job.verdict, job.detail = 'inconclusive', 'solver timeout after %ds' % to
        return job
    try:
        data = json.loads(o)
    except Exception:
        job.verdict, job.detail = 'inconclusive', 'cbmc output not parsed: rc=%s %s' % (rc, (e + o)[-500:])
        return job
    results = next((x['result'] for x in data if 'result' in x), None)
    if results is None:
        msg = ' '.join(x.get('messageText', '') for x in data if x.get('messageType') == 'ERROR')
        job.verdict, job.detail = 'inconclusive', 'cbmc gave no result: ' + msg[:500] + e[-300:]
        return job
    reach = [r for r in results if r['description'].startswith('REACH')]
    props = [r for r in results if not r['description'].startswith('REACH')]
    job.queries = len(props)
    failed = [r for r in props if r['status'] == 'FAILURE']
    unk = [r for r in props if r['status'] not in ('FAILURE', 'SUCCESS')]
    if reach:
        job.reach = 'reached' if all(r['status'] == 'FAILURE' for r in reach) else 'NOT REACHED'
    unwf = [r for r in failed if 'unwinding assertion' in r['description']]
    failed = [r for r in failed if r not in unwf]
    if failed:
        msgs = []
        for r in failed:
            # second run without slicing so that the trace holds every nondeterministic choice
            rc2, o2, e2, s2 = run([x for x in cmd if x != '--slice-formula'] + ['--trace', '--property', r['property']], timeout=max(60, min(4 * secs + 120, chk.left())), mem_gb=mem_gb)
            job.solver_s += s2
            try:
                r2 = next(x for x in next(x['result'] for x in json.loads(o2) if 'result' in x) if x['property'] == r['property'])
                vals = trace_nd(r2.get('trace', []))
            except Exception as ex:
                msgs.append('%s: trace run failed (rc=%s)' % (r['description'], rc2))
                continue
            ok, out, rp = native_replay(chk, job, d, name + '_' + r['property'], hpath, entry, cfg, inc, defs, replace, native_sources if native_sources is not None else sources, vals, native_libs, native_flags, r['description'], replay_san, native_cflags, native_defs)
            loc = r.get('sourceLocation', {})
            msgs.append('%s [%s:%s] %s; replay: %s' % (r['description'], os.path.basename(loc.get('file', '')), loc.get('line', ''), 'reproduced' if ok else 'NOT reproduced', out[-300:]))
            if ok:
                job.verdict, job.replay = 'violated', rp
                break
        if job.verdict != 'violated': job.verdict = 'inconclusive'
        job.detail = '; '.join(msgs)
        return job
    if unk or unwf:
        job.verdict, job.detail = 'inconclusive', ('unwinding bound exceeded at ' + ', '.join(r['property'] for r in unwf)) if unwf else 'unknown results: %d' % len(unk)
        return job
    if reach and job.reach != 'reached':
        job.verdict, job.detail = 'inconclusive', 'vacuity witness not reached'
        return job
    if expect_reach and not reach:
        job.verdict, job.detail = 'inconclusive', 'no vacuity witness in harness'
        return job
    job.verdict = 'holds'
    return job


def trace_nd(trace):
    vals = []
    for s in trace:
        if s.get('stepType') == 'assignment' and s.get('lhs', '') == 'nd_value' and not s.get('hidden'):
            v = s.get('value', {})
            b = v.get('binary')
            if b is None: continue
            vals.append(int(b, 2))
    return vals


def native_replay(chk, job, d, rname, hpath, entry, cfg, inc, defs, replace, sources, vals, libs, nflags, desc, san, ncflags, ndefs=(), sched=()):
    """compile the same harness with clang against the real sources and run it on the counterexample"""
    clang = 'clang'
    sanf = '-fsanitize=address,bounds -fno-sanitize-recover=all' if san else ''
    rep = ' '.join("-e 's/\\b\\(callq\\?\\|jmp\\)\\([[:space:]]\\+\\)%s\\(@PLT\\)\\?$/\\1\\2%s/'" % (a, b) for a, b in replace)
    ovl = ''
    m = next((i for i in inc if i.startswith('-I' + d)), None)
    if m:      # parameter overlay: rebuilt by the replay script from /repo
        pk = {k: v for k, v in re.findall(r'(POIK_\w+|HASH_BYTES|HIDE_BYTES)=(\d+)', job.bounds)}
        ovl = 'cp -rs %s $D/src; rm $D/src/poik.h; sed %s %s/poik.h > $D/src/poik.h\n' % (
            SRC, ' '.join(['-e s/x/x/'] + ["-e 's/\\(#[ ]*define[ ]*%s[ ]*\\)[^ ]*/\\1%s/'" % kv for kv in pk.items()]), SRC)
        inc = ['-I$D/src' if i == m else i for i in inc]
    script = '''D=$(mktemp -d /tmp/vprep_XXXXXX); trap 'rm -rf "$D"' EXIT
cat > $D/main.c <<'EOM'
extern void %(entry)s(void); int main(void) { %(entry)s(); return 0; }
EOM
%(ovl)s%(clang)s -w -g -std=gnu11 -ftrivial-auto-var-init=pattern %(cflags)s %(sanf)s -march=x86-64-v3 -madx -maes %(cfg)s %(inc)s %(defs)s -S %(h)s -o $D/h.s || exit 0
%(sed)s
%(clang)s -w -g -std=gnu11 -ftrivial-auto-var-init=pattern %(cflags)s %(sanf)s -march=x86-64-v3 -madx -maes %(cfg)s %(inc)s %(defs)s $D/main.c $D/h.s %(srcs)s %(libs)s -no-pie -Wl,--unresolved-symbols=ignore-all -lm -lpthread -o $D/h || exit 0
VH_REPLAY=$PWD/values.txt VH_SCHED=$PWD/schedule.txt ASAN_OPTIONS=detect_leaks=0:detect_stack_use_after_return=0 timeout 120 $D/h
rc=$?
echo "replay exit code: $rc"
case $rc in 0|77|78|124) exit 0;; *) exit 1;; esac
''' % dict(ovl=ovl, entry=entry, clang=clang, cflags=' '.join(ncflags), sanf=sanf, cfg=' '.join(cfg), inc=' '.join(inc),
           defs=' '.join("'-D%s'" % x for x in list(defs) + list(ndefs)), h=hpath, sed=('sed -i %s $D/h.s' % rep) if rep else ':', srcs=' '.join(sources),
           libs=' '.join(list(libs) + list(nflags)))
    rp = chk.save_replay(rname, {'values.txt': '\n'.join('%x' % v for v in vals) + '\n', 'schedule.txt': ' '.join(map(str, sched)) + '\n', 'violated.txt': desc + '\n'}, script)
    rc, o, e, _ = run([rp], timeout=200)
    return rc == 1, (o + e), rp


# ------------------------------------------------------------------ symx (LLVM bitcode + Z3)
_symx_lock = threading.Lock()


def symx_bin():
    """build the executor once per source version (kept in /verif/build, which git ignores; falls back to a scratch dir)"""
    with _symx_lock:
        src = VERIF + '/engine/symx.cpp'
        h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        for d in (VERIF + '/build', '/tmp/vp_symx_build'):
            try:
                os.makedirs(d, exist_ok=True)
                p = '%s/symx_%s' % (d, h)
                if os.access(p, os.X_OK): return p
                cf = [x for x in subprocess.check_output(['llvm-config-18', '--cxxflags'], text=True).split() if x != '-fno-exceptions']
                lf = subprocess.check_output(['llvm-config-18', '--ldflags'], text=True).split()
                tmp = p + '.%d' % os.getpid()
                rc, o, e, _ = run(['g++', '-O2', '-w', *cf, '-std=c++17', '-fexceptions', src, '-o', tmp, *lf, '-lLLVM-18', '-lz3'], timeout=300)
                if rc == 0:
                    os.rename(tmp, p)
                    return p
            except OSError:
                continue
        raise RuntimeError('cannot build symx: ' + (e[-500:] if 'e' in dir() else ''))


OPT_PASSES = 'function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)'


def symx(chk, name, harness, entry='harness', defs=(), replace=(), timeout=300, functions=(), bounds='', config=None, params=None, extra=(),
         expect_reach=(), sources=(), native_libs=(), native_flags=(), native_sources=None, mem_gb=6, replay_san=True, native_cflags=('-O0',), native_defs=(), ignore=()):
    """symbolically execute `entry` of the harness compiled together with the real sources; every path, Z3 verdict per assertion"""
    job = Job(name, engine='symx (LLVM IR, Z3 4.8 QF_BV)', functions=list(functions), bounds=bounds)
    if os.environ.get('VERIF_ONLY') and not re.search(os.environ['VERIF_ONLY'], name): return None      # development aid
    t0 = time.time()
    d = chk.subdir(name)
    cfg = list(config if config is not None else POIK_DEFS)
    srcdir = os.path.join(d, 'src')
    overlay(srcdir, params or {}, split_union=False)
    if params: job.bounds = (job.bounds + '; ' if job.bounds else '') + ', '.join('%s=%s' % kv for kv in params.items())
    inc = ['-I' + HARN, '-I' + srcdir]
    hpath = harness if os.path.isabs(harness) else os.path.join(HARN, harness)
    bad = stub_types(d, hpath, cfg, inc, defs, replace)
    if bad:
        job.verdict, job.detail = 'inconclusive', 'interface changed: ' + ', '.join(bad)
        return job
    lls = []
    for k, sf in enumerate([hpath, *sources]):
        ll = os.path.join(d, 'h%d.bc' % k)
        rc, o, e, _ = run(['clang', '-DVSYMX', '-D__NO_CTYPE', '-w', '-g', '-std=gnu11', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-builtin', '-fno-vectorize', '-fno-slp-vectorize', '-march=x86-64-v3', '-madx', '-maes',
                           *cfg, *inc, *['-D' + x for x in defs], '-emit-llvm', '-c', sf, '-o', ll], timeout=120)
        if rc != 0:
            job.verdict, job.detail = 'inconclusive', 'clang failed: ' + (e + o)[-800:]
            return job
        lls.append(ll)
    m = os.path.join(d, 'm.bc')
    if len(lls) > 1:
        rc, o, e, _ = run(['llvm-link', *lls, '-o', m], timeout=120)
        if rc != 0:
            job.verdict, job.detail = 'inconclusive', 'llvm-link failed: ' + (e + o)[-800:]
            return job
    else: m = lls[0]
    mo = os.path.join(d, 'mo.bc')
    rc, o, e, _ = run(['opt', '-passes=' + OPT_PASSES, m, '-o', mo], timeout=120)
    if rc != 0:
        job.verdict, job.detail = 'inconclusive', 'opt failed: ' + (e + o)[-800:]
        return job
    to = min(timeout, chk.left())
    rc, o, e, secs = run([symx_bin(), mo, '--entry', entry, *sum((['--replace', '%s:%s' % (a, b)] for a, b in replace), []), '--timeout', str(int(to)), *extra], timeout=to + 130, mem_gb=mem_gb)
    job.seconds = time.time() - t0
    job.solver_s = secs
    try:
        res = json.loads(o.strip().splitlines()[-1])
    except Exception:
        job.verdict, job.detail = 'inconclusive', 'symx gave no result: rc=%s %s' % (rc, (e + o)[-500:])
        return job
    job.queries = res['queries'] + res['proofs']
    job.solver_s = res['solver_s']
    job.functions = [f for f in res['functions'] if not f.startswith(('vh_', 'stub_', 'nd', 'ref_', 'h_'))] or job.functions
    job.paths = res['paths']
    job.reach = ', '.join(res['reached'])
    msgs = []
    for v in res['violations']:
        if v['msg'] in ignore: continue
        ok, out, rp = native_replay(chk, job, d, '%s_%s' % (name, re.sub(r'\W+', '_', v['where'])), hpath, entry, cfg, inc, defs, replace, native_sources if native_sources is not None else sources,
                                    [int(x, 16) for x in v['vals']], native_libs, native_flags, v['msg'], replay_san, native_cflags, native_defs, sched=v['sched'])
        msgs.append('%s [%s] %s; replay: %s' % (v['msg'], v['where'], 'reproduced' if ok else 'NOT reproduced', out[-300:]))
        if ok:
            job.verdict, job.replay = 'violated', rp
            break
    if job.verdict == 'violated':
        job.detail = '; '.join(msgs)
    elif msgs:
        job.verdict, job.detail = 'inconclusive', '; '.join(msgs)
    elif res['incomplete']:
        job.verdict, job.detail = 'inconclusive', 'not exhausted: ' + '; '.join(res['notes']) + ' after %d paths' % res['paths']
    elif not res['reached'] or [x for x in expect_reach if x not in res['reached']]:
        job.verdict, job.detail = 'inconclusive', 'vacuity witness not reached'
    else:
        job.verdict = 'holds'
    return job
