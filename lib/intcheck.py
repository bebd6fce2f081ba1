"""Integer-level obligations on the field back ends: encode with symx (term DAG of the real code), decide with intx (Z3 over the
integers), and turn a failed proof into concrete operands on which the real code, run natively, breaks the obligation."""
import os, random, asm2c, intx
from vlib import *
PRIMES = {434: 2**216 * 3**137 - 1, 503: 2**250 * 3**159 - 1, 610: 2**305 * 3**192 - 1, 751: 2**372 * 3**239 - 1}
STUBS = [(f, 'stub_' + f) for f in ('is_digit_lessthan_ct', 'is_digit_zero_ct', 'is_digit_nonzero_ct', 'digit_x_digit')]
CANARY_O, CANARY_I = 0x7766554433221100, 0x99


def backend(chk, sz, fast):
    """(config, extra sources for the encoding, native sources); x64 assembly is assembled, disassembled and translated"""
    if not fast: return GEN_DEFS, ['%s/P%d/generic/fp_generic.c' % (SRC, sz)], ['%s/P%d/generic/fp_generic.c' % (SRC, sz)]
    d = chk.subdir('asm_p%d' % sz)
    obj, cf = d + '/a.o', d + '/a.c'
    rc, o, e, _ = run(['clang', *FAST_DEFS, '-c', '%s/P%d/AMD64/fp_x64_asm.S' % (SRC, sz), '-o', obj], timeout=60)
    if rc: raise RuntimeError('assembling failed: ' + e[-300:])
    open(cf, 'w').write(asm2c.to_c(obj))
    x = '%s/P%d/AMD64/fp_x64.c' % (SRC, sz)
    return FAST_DEFS, [x, cf], [x, '%s/P%d/AMD64/fp_x64_asm.S' % (SRC, sz)]


class Spec:
    """ia/ib/ic: words of the input arrays a, b, and of the preloaded output array (c).  parts: name -> (array, first word, words,
    exclusive upper bound or None); outputs likewise in outs (array o).  goals: (msg, f, m): f(v) == 0 (mod m when m is given) as a
    polynomial in the parts; or (msg, part, bound) with a part name: part < bound."""
    def __init__(s, call, n, parts, outs, goals, res='o', ia=0, ib=0, ic=0, no=None, keep=True, pre=None, abs=False, raw=False):
        s.call, s.n, s.parts, s.outs, s.goals, s.res, s.keep, s.pre, s.abs, s.raw = call, n, parts, outs, goals, res, keep, pre, abs, raw
        w = lambda a: max([o + k for (x, o, k, m) in parts.values() if x == a] or [0])
        s.ia, s.ib, s.ic = ia or w('a'), ib or w('b'), ic or w('c')
        s.no = no or max(o + k for (o, k) in outs.values())


def words(x, n): return [(x >> (64 * i)) & (2**64 - 1) for i in range(n)]
def unwords(w): return sum(x << (64 * i) for i, x in enumerate(w))


def native(d, be, defs):
    cfg, _, nat = be
    exe, mainc = os.path.join(d, 'native'), os.path.join(d, 'main.c')
    open(mainc, 'w').write('#include "%s/wide.c"\nint main(int argc, char **argv) { for (long n = atol(argv[1]); n--; ) h_call(); return 0; }\n' % HARN)
    cmd = ['clang', '-w', '-O1', '-std=gnu11', '-march=x86-64-v3', '-madx', *cfg, '-I' + HARN, '-I' + SRC, *['-D' + x for x in defs], mainc, *nat, '-no-pie', '-Wl,--unresolved-symbols=ignore-all', '-o', exe]
    rc, o, e, _ = run(cmd, timeout=120)
    return exe if rc == 0 else None


def run_cases(exe, d, spec, cases):
    """cases: dicts array -> words; returns [(o words, a words, b words)]"""
    fn = os.path.join(d, 'cases.txt')
    with open(fn, 'w') as f:
        for c in cases: f.write(' '.join('%x' % w for w in c['a'] + c['b'] + c['c']) + '\n')
    rc, o, e, _ = run([exe, str(len(cases))], timeout=120, env={**os.environ, 'VH_REPLAY': fn})
    L, out = o.split('\n'), []
    for k in range(len(cases)):
        try: out.append(tuple([int(x, 16) for x in L[3*k+i].split()] for i in range(3)))
        except (IndexError, ValueError): break
    return out


class NS:
    def __init__(s, d): s.__dict__.update(d)


def judge(spec, case, r):
    ow, aw, bw = r
    v = {k: unwords(case[x][o:o+n]) for k, (x, o, n, m) in spec.parts.items()}
    v.update({k: unwords(ow[o:o+n]) for k, (o, n) in spec.outs.items()})
    for msg, f, m in spec.goals:
        if isinstance(f, str):
            if not v[f] < m: return msg
        else:
            x = f(NS(v))
            if (x % m if m else x) != 0: return msg
    if spec.keep:
        if ow[spec.no] != (CANARY_O if spec.res == 'o' else CANARY_I): return 'word after the result was written'
        if spec.res != 'a' and aw[:spec.ia] != case['a']: return 'first operand was changed'
        if spec.ib and spec.res != 'b' and bw[:spec.ib] != case['b']: return 'second operand was changed'
    return None


def structured(rng, n, mx, P):
    mx = mx or 1 << (64 * n)
    k = rng.randrange(10)
    if k == 0: v = rng.choice([0, 1, 2, P - 1, P, P + 1, 2 * P - 1, mx - 1, mx - 2, mx // 2])
    elif k == 1: v = rng.getrandbits(64 * n)
    else:
        pal = [0, 2**64 - 1, 2**64 - 1, 1, 2**63, 2**64 - 2, 2**32 - 1, 2**64 - 2**32]
        if k < 5: pal = [0, 2**64 - 1]
        v = 0
        for i in range(n): v = v << 64 | (rng.getrandbits(64) if rng.random() < 0.15 else rng.choice(pal))
        if k == 9: v = (rng.choice([P, 2 * P, mx]) + rng.choice([-1, 1]) * v // (1 << (64 * rng.randrange(0, n + 1))))
    v = abs(v)
    if v >= mx:
        top = mx >> (64 * (n - 1))
        v = (v & ((1 << (64 * (n - 1))) - 1)) | (rng.randrange(top) if top and rng.random() < .5 else max(top - 1, 0)) << (64 * (n - 1))
        if v >= mx: v %= mx
    return v


def concretise(chk, d, sz, be, spec, defs, hints, seconds):
    """find concrete operands on which the real code breaks a goal, starting from the solver's model"""
    exe = native(d, be, defs)
    if not exe: return None
    rng = random.Random(SEED)
    t = time.time()
    batch = list(hints)
    while time.time() - t < seconds:
        while len(batch) < 6000:
            v = {k: structured(rng, n, m, PRIMES[sz]) for k, (x, o, n, m) in spec.parts.items()}
            ks = sorted(v)
            if len(ks) > 1 and rng.random() < .1:        # equal or nearly equal operands
                x, y = rng.sample(ks, 2)
                m = spec.parts[y][3] or 1 << (64 * spec.parts[y][2])
                v[y] = min(max(v[x] + rng.choice([-1, 0, 0, 1]), 0), m - 1)
            case = {'a': [0] * spec.ia, 'b': [0] * spec.ib, 'c': [0] * spec.ic}
            for k, (x, o, n, m) in spec.parts.items(): case[x][o:o+n] = words(v[k], n)
            batch.append(case)
        for case, r in zip(batch, run_cases(exe, d, spec, batch)):
            if any(m and unwords(case[x][o:o+n]) >= m for (x, o, n, m) in spec.parts.values()): continue
            if spec.pre and not spec.pre(NS({k: unwords(case[x][o:o+n]) for k, (x, o, n, m) in spec.parts.items()})): continue
            m = judge(spec, case, r)
            if m: return case, m
        batch = []
    return None


def check(chk, name, sz, fast, be, spec, timeout=300, solver_s=60, search_s=None):
    job = Job(name, engine='symx term DAG + Z3 integers', bounds='p%d %s, all values in the stated ranges' % (sz, 'x64' if fast else 'portable'))
    if os.environ.get('VERIF_ONLY') and not re.search(os.environ['VERIF_ONLY'], name): return None
    t0 = time.time()
    d = chk.subdir(name)
    cfg, src, nat = be
    defs = ['SZ=%d' % sz, 'CALL=' + spec.call, 'RES=' + spec.res, 'IA=%d' % spec.ia, 'IB=%d' % spec.ib, 'IC=%d' % spec.ic, 'NO_=%d' % spec.no]
    dag = os.path.join(d, 'dag.txt')
    j = symx(chk, name + '_enc', 'wide.c', entry='h_call', defs=defs, config=cfg, sources=src, native_sources=nat, replace=([('mp_mul', 'stub_mp_mul'), ('rdc_mont', 'stub_rdc_mont')] if spec.abs else []) + ([] if fast or spec.raw else STUBS), extra=['--dag', dag], expect_reach=['end'], timeout=timeout)
    job.functions = [f for f in j.functions if f not in ('in', 'out')]
    if j.verdict != 'holds' or not os.path.exists(dag):
        job.verdict, job.detail = 'inconclusive', 'encoding: ' + j.detail
        if j.verdict == 'violated': job.verdict, job.replay = 'violated', j.replay
        job.seconds = time.time() - t0
        return job
    res, hints = [], []
    try:
        bd = {}
        for k, (x, o, n, m) in spec.parts.items():
            if m: bd['%s_%d' % (x, o + n - 1)] = (0, (m - 1) >> (64 * (n - 1)))
        I = intx.Intx(dag, bd, tmo=max(5, min(solver_s, chk.left())))

        class X:      # polynomial arithmetic for specifications
            def __init__(s, p): s.p = p
            def __add__(s, o): return X(intx.padd(s.p, o.p if isinstance(o, X) else intx.const(o)))
            __radd__ = __add__
            def __sub__(s, o): return X(intx.padd(s.p, o.p if isinstance(o, X) else intx.const(o), -1))
            def __rsub__(s, o): return X(intx.const(o)) - s
            def __mul__(s, o): return X(I.red(intx.pmul(s.p, o.p if isinstance(o, X) else intx.const(o))))
            __rmul__ = __mul__
        vals, v = {}, {}
        for k, (x, o, n, m) in spec.parts.items():
            vals[k] = I.invalue(x, n, o)
            if m: I.cons.append((vals[k].l, 0, m - 1))
        if spec.abs: res += I.contracts(spec.n, PRIMES[sz], 1 << 760 if fast and sz == 751 else None)
        for k, (o, n) in spec.outs.items(): vals[k] = I.value('o', n, o)
        ns = NS({k: X(x.p) for k, x in vals.items()})
        for msg, f, m in spec.goals:
            if isinstance(f, str):
                if vals[f].hi < m: r = ('holds', None)
                else: r = I.refute(lambda S, vs: S.add(I.z3lin(vals[f].l, vs) >= m))
            else: r = I.prove_zero(f(ns).p, m)
            res.append((msg, r[0]))
            if r[0] == 'cex': hints.append({x: [r[1].get('%s_%d' % (x, i), 0) for i in range(n)] for x, n in (('a', spec.ia), ('b', spec.ib), ('c', spec.ic))})
        if spec.keep:
            g = I.norm(I.outs['o_%d' % spec.no]).p == intx.const(CANARY_O if spec.res == 'o' else CANARY_I)
            res.append(('nothing beyond the result is written', 'holds' if g else 'cex'))
            for nm, k in (('a', spec.ia), ('b', spec.ib)):
                if spec.res != nm:
                    same = all(I.norm(I.outs['%s_%d' % (nm, i)]).p == {('%s_%d' % (nm, i),): 1} for i in range(k))
                    res.append(('operand %s unchanged' % nm, 'holds' if same else 'cex'))
        job.queries, job.solver_s = I.queries + j.queries, I.solver_s
    except intx.NotSupported as ex:
        res.append(('term %s has no integer translation' % ex, 'unknown'))
    bad = [r for r in res if r[1] != 'holds']
    job.seconds, job.reach = time.time() - t0, 'end'
    if not bad: job.verdict = 'holds'; return job
    hit = concretise(chk, d, sz, be, spec, defs, hints, search_s or (6 if chk.quick else 60))
    job.seconds = time.time() - t0
    if hit:
        case, m = hit
        job.verdict, job.detail = 'violated', '%s (solver: %s)' % (m, bad)
        exp = 'arrays (least significant word first)\n' + '\n'.join('%s = %s' % (k, ' '.join('%x' % w for w in x)) for k, x in case.items())
        got = run_cases(os.path.join(d, 'native'), d, spec, [case])[0]
        job.replay = chk.save_replay(name, {'operands.txt': ' '.join('%x' % w for w in case['a'] + case['b'] + case['c']) + '\n', 'violated.txt': '%s: %s\n%s\n' % (spec.call, m, exp),
            'bad-output.txt': '\n'.join(' '.join('%x' % w for w in x) for x in got) + '\n', 'main.c': '#include "%s/wide.c"\nint main(void) { h_call(); return 0; }\n' % HARN},
            'D=$(mktemp -d /tmp/vprep_XXXXXX); trap \'rm -rf "$D"\' EXIT\nclang -w -O1 -std=gnu11 -march=x86-64-v3 -madx %s -I%s -I%s %s main.c %s -no-pie -Wl,--unresolved-symbols=ignore-all -o $D/h || exit 2\ncat violated.txt\nVH_REPLAY=$PWD/operands.txt $D/h | tee $D/out\n'
            'python3 - $D/out bad-output.txt <<\'E\'\nimport sys\na, b = (open(f).read().split() for f in sys.argv[1:])\nprint("the real code still returns the wrong words" if [int(x, 16) for x in a] == [int(x, 16) for x in b] else "the result differs from the recorded wrong one")\nsys.exit(1 if [int(x, 16) for x in a] == [int(x, 16) for x in b] else 0)\nE\n'
            % (' '.join(cfg), HARN, SRC, ' '.join("'-D%s'" % x for x in defs), ' '.join(nat)))
    else:
        job.verdict, job.detail = 'inconclusive', 'not proved: %s; no concrete violation found' % bad
    return job


def forked(fn):
    """run one obligation in a process of its own (Z3's Python API is not thread-safe)"""
    import pickle

    def go():
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                try: j = fn()
                except BaseException as e:
                    import traceback
                    j = Job('obligation', verdict='inconclusive', detail='internal: ' + traceback.format_exc()[-1500:])
                with os.fdopen(w, 'wb') as f: pickle.dump(j, f)
            finally: os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else Job('obligation', verdict='inconclusive', detail='worker ended without a result')
    return go
