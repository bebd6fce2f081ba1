"""Integer semantics of bit-vector term DAGs (dumped by symx) and their decision by Z3 over the integers.
Every machine word becomes an exact integer polynomial over the input words and explicit carry/quotient variables; wrap-arounds
introduce a quotient variable with its range constraint. Identities are normalised, and what does not cancel (dropped carries,
ranges) is decided by Z3 (linear integer arithmetic) over the collected range constraints."""
import z3, time, itertools, os, math, random
DBG = os.environ.get('INTX_DBG')
from collections import defaultdict


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + k * c
        if v: r[m] = v
        else: r.pop(m, None)
    return r


def pmul(p, q):
    if len(p) > len(q): p, q = q, p
    r = defaultdict(int)
    for m, c in p.items():
        if m == ():
            for n, d in q.items(): r[n] += c * d
        else:
            for n, d in q.items(): r[tuple(sorted(m + n))] += c * d
    return {m: c for m, c in r.items() if c}


def pscale(p, k): return {m: c * k for m, c in p.items()} if k else {}
def key(p): return frozenset(p.items())
def const(c): return {(): c} if c else {}


class V:      # exact integer value: expanded polynomial, sparse linear form, interval
    __slots__ = ('p', 'l', 'lo', 'hi')
    def __init__(s, p, l, lo, hi): s.p, s.l, s.lo, s.hi = p, l, lo, hi


class NotSupported(Exception): pass


class Intx:
    def __init__(s, dag, bounds=None, tmo=60):
        s.nodes, s.outs = {}, {}
        for line in open(dag):
            t = line.split()
            if t[0] == 'out': s.outs[t[1]] = int(t[2]); continue
            i, op, w = int(t[0]), t[1], int(t[2])
            if op == 'num': s.nodes[i] = ('num', w, int(t[3]), ())
            else: s.nodes[i] = (op, w, [int(x) for x in t[3][1:-1].split(',') if x], [int(x) for x in t[4:]])
        s.var = {}            # name -> (lo, hi)
        s.cons = []           # (linear form, lo, hi)  :  lo <= form <= hi
        s.eqs = []            # linear form == 0
        s.bounds = bounds or {}
        s.memo, s.modmemo, s.known, s.prodnames, s.zt = {}, {}, {}, {}, {}
        s.subst = {}
        s.n = 0
        s.queries = 0; s.solver_s = 0.0; s.tmo = tmo
        s.defs = {}           # var -> index of constraints defining it

    # ------------------------------------------------------------ variables
    def fresh(s, pre, lo, hi):
        s.n += 1
        nm = '%s%d' % (pre, s.n)
        s.var[nm] = (lo, hi)
        return nm

    # ------------------------------------------------------------ contracts: named calls whose result is given by its operands
    def contracts(s, n, P, mulmax=None):
        """m<k>a, m<k>b -> m<k>o = product;  m<k>a alone -> m<k>o = a/2^(64n) mod P in [0,2P), for a < P*2^(64n).
        Returns [(msg, verdict)] for the preconditions"""
        R, res, k = 1 << (64 * n), [], 0
        while 'm%da_0' % k in s.outs:
            mul = 'm%db_0' % k in s.outs
            A = s.tidy(s.value('m%da' % k, n if mul else 2 * n))
            names = ['m%do_%d' % (k, i) for i in range(2 * n if mul else n)]
            rest = {(names[i],): -(1 << (64 * i)) for i in range(1, len(names))}
            for x in names: s.var[x] = (0, 2**64 - 1)
            whole = {(names[i],): 1 << (64 * i) for i in range(len(names))}
            if mul:
                B = s.tidy(s.value('m%db' % k, n))
                if mulmax:
                    for X in (A, B): res.append(('operand of product %d is in its range' % k, 'holds' if X.hi < mulmax else s.refute(lambda S, vs: S.add(s.z3lin(X.l, vs) >= mulmax))[0]))
                p = padd(s.red(pmul(A.p, B.p)), rest)
                s.cons.append((whole, A.lo * B.lo, A.hi * B.hi))
            else:
                res.append(('input of reduction %d is below p*2^(field words)' % k, 'holds' if A.hi < P * R else s.refute(lambda S, vs: S.add(s.z3lin(A.l, vs) >= P * R))[0]))
                q = s.fresh('K', -(1 << (128 * n)), 1 << (128 * n))
                p = padd(padd(pscale(A.p, pow(R, -1, P)), rest), {(q,): P})
                s.cons.append((whole, 0, 2 * P - 1))
            s.subst[names[0]] = p
            s.known[key(p)] = (0, 2**64 - 1)
            k += 1
        return res

    def tidy(s, v):
        """drop top carries of a word string that provably vanish; tighten its interval from the expanded form"""
        if v.l is None: return v
        p = dict(v.p)
        top = {m: c for m, c in p.items() if len(m) == 1 and m[0][0] == 'c' and abs(c) > v.hi}
        if top and (s.refute(lambda S, vs: S.add(s.z3lin(top, vs) != 0), tmo=min(s.tmo, 30), cone=top)[0] == 'holds' or s.relaxed(top, set())):
            s.cons.append((top, 0, 0)); p = padd(p, top, -1)
        lo, hi = s.iv(p)
        return V(p, v.l, max(lo, v.lo), min(hi, v.hi))

    def inp(s, nm):
        if nm in s.subst: return V(s.subst[nm], {(nm,): 1}, 0, 2**64 - 1)
        if nm not in s.var: s.var[nm] = s.bounds.get(nm, (0, 2**64 - 1))
        lo, hi = s.var[nm]
        p = {(nm,): 1}
        return V(p, p, lo, hi)

    def mono_iv(s, m):
        lo, hi = 1, 1
        for v in m:
            a, b = s.var[v]
            c = (lo * a, lo * b, hi * a, hi * b)
            lo, hi = min(c), max(c)
        return lo, hi

    def iv(s, p):
        k = s.known.get(key(p))
        lo = hi = 0
        for m, c in p.items():
            a, b = s.mono_iv(m)
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
        if k: lo, hi = max(lo, k[0]), min(hi, k[1])
        return lo, hi

    def lin(s, v):
        """name a value when its sparse form is long or nonlinear"""
        return v.l

    # ------------------------------------------------------------ operations
    def C(s, c): return V(const(c), const(c), c, c)

    def add(s, x, y, k=1):
        lo, hi = (x.lo + k * y.lo, x.hi + k * y.hi) if k > 0 else (x.lo + k * y.hi, x.hi + k * y.lo)
        return V(padd(x.p, y.p, k), padd(x.l, y.l, k), lo, hi)

    def scale(s, x, k):
        lo, hi = (x.lo * k, x.hi * k) if k >= 0 else (x.hi * k, x.lo * k)
        return V(pscale(x.p, k), pscale(x.l, k), lo, hi)

    def name(s, x):
        """sparse form with a single variable"""
        if len(x.l) <= 1 and all(len(m) <= 1 for m in x.l): return x
        nm = s.fresh('w', x.lo, x.hi)
        s.eqs.append(padd({(nm,): 1}, x.l, -1))
        return V(x.p, {(nm,): 1}, x.lo, x.hi)

    def red(s, p):
        """b*b = b for bits"""
        r = {}
        for m, c in p.items():
            if len(m) > 1 and len(set(m)) < len(m):
                o = []
                for v in m:
                    if v in o and s.var[v] == (0, 1): continue
                    o.append(v)
                m = tuple(o)
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: r.pop(m, None)
        return r

    def mul(s, x, y):
        if not x.p or not y.p: return s.C(0)
        if list(x.p) == [()]: return s.scale(y, x.p[()])
        if list(y.p) == [()]: return s.scale(x, y.p[()])
        c = (x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi)
        p = s.red(pmul(x.p, y.p))
        if len(p) > 1 and max(c) < 1 << 64: s.known[key(p)] = (min(c), max(c))
        if len(x.p) == 1 and len(y.p) == 1:
            nx, ny = x, y
        else: nx, ny = s.name(x), s.name(y)
        mx, my = next(iter(nx.l)), next(iter(ny.l))
        k = tuple(sorted(mx + my)); cc = nx.l[mx] * ny.l[my]
        if k not in s.prodnames:
            # square of a bit is the bit
            if len(set(k)) == 1 and s.var[k[0]] in ((0, 1), (0, 0)): s.prodnames[k] = k[0]
            else:
                lo, hi = s.mono_iv(k)
                nm = s.fresh('m', lo, hi); s.prodnames[k] = nm
                bits = [v for v in set(k) if s.var[v] == (0, 1)]
                if len(k) == 2 and bits:       # bit * word: exact linear description
                    b = bits[0]; o = k[0] if k[1] == b else k[1]
                    ol, oh = s.var[o]
                    if ol >= 0:
                        s.cons.append(({(nm,): 1, (b,): -oh}, None, 0)); s.cons.append(({(nm,): 1, (o,): -1}, None, 0))
                        s.cons.append(({(nm,): 1, (o,): -1, (b,): -oh}, -oh, None))
        return V(p, {(s.prodnames[k],): cc}, min(c), max(c))

    def mod(s, x, w):
        """(x mod 2^w) as a value"""
        M = 1 << w
        if x.lo >= 0 and x.hi < M: return x
        if x.lo >= -1 and x.hi <= 0: return s.scale(x, 1 - M)        # all-ones mask from a bit
        core = {}
        for m, c in x.p.items():
            c %= M
            if c >= M // 2 and m != (): c -= M
            if c: core[m] = c
        k = (key(core), w)
        if k in s.modmemo: return s.modmemo[k]
        lo, hi = s.iv(core)
        if lo < 0 and len(core) <= 4:          # e.g. -bit
            alt = {m: c % M for m, c in core.items()}
            l2, h2 = s.iv(alt)
            if h2 < M: core, lo, hi = alt, l2, h2
        if lo >= 0 and hi < M:
            # value equals the core polynomial; keep a sparse name tied to x
            q = {m: (x.p.get(m, 0) - core.get(m, 0)) // M for m in set(x.p) | set(core)}
            r = V(core, core if len(core) <= 2 and all(len(m) <= 1 for m in core) else None, lo, hi)
            if r.l is None:
                nm = s.fresh('r', lo, hi); qn = s.fresh('q', x.lo // M, x.hi // M)
                s.eqs.append(padd(padd({(nm,): 1}, x.l, -1), {(qn,): M}))
                r.l = {(nm,): 1}
            s.modmemo[k] = r
            return r
        qlo, qhi = x.lo >> w, x.hi >> w
        if qlo == qhi:
            r = s.add(x, s.C(qlo * M), -1); r.lo, r.hi = max(r.lo, 0), min(r.hi, M - 1)
            s.cons.append((r.l, 0, M - 1)); s.known[key(r.p)] = (r.lo, r.hi); s.modmemo[k] = r
            return r
        sg = 1
        if qhi <= 0: sg, qlo, qhi = -1, -qhi, -qlo          # borrows as non-negative variables
        q = s.fresh('c', qlo, qhi)
        p = padd(x.p, {(q,): sg}, -M)
        nm = s.fresh('r', 0, M - 1)
        s.eqs.append(padd(padd({(nm,): 1}, x.l, -1), {(q,): sg * M}))
        r = V(p, {(nm,): 1}, 0, M - 1)
        s.known[key(p)] = (0, M - 1)
        s.modmemo[k] = r
        return r

    def floor(s, x, w):
        """floor(x / 2^w)"""
        if w == 0: return x
        if x.lo >= 0 and x.hi < (1 << w): return s.C(0)
        if x.lo < 0:       # floor(x/2^w) is the same for every w with -2^w <= x < 2^w: use one canonical position
            k = 0
            while not (-(1 << k) <= x.lo and x.hi < (1 << k)): k += 1
            if w >= 64 >= k: w = 64
            elif w > k: w = k
        M = 1 << w
        r = s.mod(x, w)
        d = padd(x.p, r.p, -1)
        p = {}
        for m, c in d.items():
            if c % M: raise NotSupported('quotient')
            p[m] = c // M
        l = None
        if len(p) <= 1 and all(len(m) <= 1 for m in p): l = p
        else:
            nm = s.fresh('f', x.lo >> w, x.hi >> w)
            s.eqs.append(padd(padd({(nm,): M}, x.l, -1), r.l))
            l = {(nm,): 1}
        return V(p, l, x.lo >> w, x.hi >> w)

    def tz(s, p):
        if not p: return 10**6
        return min((c & -c).bit_length() - 1 for c in p.values())

    def norm(s, i):
        """value of node i in [0, 2^w)"""
        v = s.T(i); w = s.nodes[i][1] or 1
        return s.mod(v, w)

    def lt(s, x, y, w):
        """bit (x < y) for 0 <= x, y < 2^w"""
        if x.hi < y.lo: return s.C(1)
        if x.lo >= y.hi: return s.C(0)
        d = s.add(x, y, -1)
        d.lo, d.hi = max(d.lo, -(1 << w) + 1), min(d.hi, (1 << w) - 1)
        r = s.mod(d, w)
        p = {}
        for m, c in padd(r.p, d.p, -1).items():
            if c % (1 << w): raise NotSupported('compare')
            p[m] = c >> w
        if len(p) <= 1 and all(len(m) <= 1 for m in p): l = p
        else:
            nm = s.fresh('b', 0, 1); s.eqs.append(padd(padd({(nm,): 1 << w}, d.l), r.l, -1)); l = {(nm,): 1}
        return V(p, l, 0, 1)

    def bor(s, x, y):
        if not x.p: return y
        if not y.p: return x
        if s.valid_le(s.add(x, y), 1):
            r = s.add(x, y); r.lo, r.hi = 0, 1
            s.known[key(r.p)] = (0, 1)
            return s.name(r)
        m = s.mul(x, y)
        r = s.add(s.add(x, y), m, -1); r.lo, r.hi = 0, 1
        return s.name(r)

    def bxor(s, x, y):
        if not x.p: return y
        if not y.p: return x
        if x.p == {(): 1}: return s.add(s.C(1), y, -1)
        if y.p == {(): 1}: return s.add(s.C(1), x, -1)
        if s.valid_le(s.add(x, y), 1): return s.bor(x, y)
        m = s.mul(x, y); r = s.add(s.add(x, y), m, -2); r.lo, r.hi = 0, 1
        return s.name(r)

    def band(s, x, y):
        if x.lo == 1: return y
        if y.lo == 1: return x
        for u, v in ((x, y), (y, x)):        # bit & (t == 0)  <=>  t < bit
            z = s.zt.get(key(u.p))
            if z: return s.lt(z[0], v, z[1])
        if s.valid_le(s.add(x, y), 1): return s.C(0)
        r = s.mul(x, y); r.lo, r.hi = 0, 1
        return r

    def T(s, root):
        stack = [root]
        while stack:
            i = stack[-1]
            if i in s.memo: stack.pop(); continue
            n = s.nodes[i]
            todo = [a for a in n[3] if a not in s.memo]
            if todo: stack.extend(todo); continue
            v = s.node(i)
            if 0 < n[1] <= 64: v = s.mod(v, n[1])        # wider terms stay unreduced: they hold sums that do not wrap
            s.memo[i] = v; stack.pop()
        return s.memo[root]

    def isbit(s, v): return v.lo >= 0 and v.hi <= 1

    def ext(s, i, h, l):
        """bits h..l of node i; distributes over concatenations so that one bit of a word is one variable everywhere"""
        op, w, par, args = s.nodes[i]
        if op == 'concat':
            r, sh, lo = s.C(0), 0, 0
            for a in reversed(args):
                wa = s.nodes[a][1]
                if lo <= h and lo + wa > l:
                    h1, l1 = min(h - lo, wa - 1), max(l - lo, 0)
                    r = s.add(r, s.scale(s.ext(a, h1, l1), 1 << sh)); sh += h1 - l1 + 1
                lo += wa
            return r
        if op == 'zero_extend':
            w0 = s.nodes[args[0]][1]
            if l >= w0: return s.C(0)
            return s.ext(args[0], min(h, w0 - 1), l)
        if op == 'extract': return s.ext(args[0], h + par[1], l + par[1])
        if l == 0 and h == w - 1: return s.norm(i)
        return s.mod(s.floor(s.T(i), l), h - l + 1)

    def node(s, i):
        op, w, par, args = s.nodes[i]
        if op == 'num': return s.C(par)
        if op.startswith('var:'): return s.inp(op[4:])
        if op == 'true': return s.C(1)
        if op == 'false': return s.C(0)
        if op == 'zero_extend': return s.norm(args[0])
        if op == 'sign_extend':
            w0 = s.nodes[args[0]][1]; x = s.norm(args[0])
            if w0 == 1: return s.scale(x, -1)
            return s.add(x, s.scale(s.floor(x, w0 - 1), 1 << w0), -1)
        if op == 'concat':
            r = s.norm(args[0])
            for a in args[1:]: r = s.add(s.scale(r, 1 << s.nodes[a][1]), s.norm(a))
            return r
        if op == 'extract':
            return s.ext(args[0], par[0], par[1])
        if op == 'bvadd':
            r = s.T(args[0])
            for a in args[1:]: r = s.add(r, s.T(a))
            return r
        if op == 'bvsub':
            r = s.T(args[0])
            for a in args[1:]: r = s.add(r, s.T(a), -1)
            return r
        if op in ('bvlshr', 'bvshl') and s.nodes[args[1]][0] == 'num':
            k = s.nodes[args[1]][2]
            return s.floor(s.norm(args[0]), k) if op == 'bvlshr' else s.mod(s.scale(s.norm(args[0]), 1 << k), w)
        if op == 'bvneg': return s.scale(s.T(args[0]), -1)
        if op == 'bvnot': return s.add(s.C((1 << w) - 1), s.norm(args[0]), -1)
        if op == 'bvmul':
            r = s.norm(args[0])
            for a in args[1:]: r = s.mul(r, s.norm(a))
            return r
        if op == 'bvand':
            xs = [s.T(a) for a in args]
            if len(xs) != 2: raise NotSupported('and arity')
            for x, a in ((xs[0], args[1]), (xs[1], args[0])):
                if x.lo >= 0 and x.p and all(c0 % ((1 << w) - 1) == 0 for c0 in x.p.values()):
                    q = {m0: c0 // ((1 << w) - 1) for m0, c0 in x.p.items()}
                    if x.hi <= (1 << w) - 1:
                        if len(q) == 1 and len(next(iter(q))) == 1: bit = V(q, q, 0, 1)
                        else:
                            nm = s.fresh('b', 0, 1); s.eqs.append(padd({(nm,): (1 << w) - 1}, x.l, -1)); bit = V(q, {(nm,): 1}, 0, 1)
                        return s.mul(bit, s.norm(a))
                if x.lo >= -1 and x.hi <= 0: return s.mul(s.scale(x, -1), s.norm(a))        # mask 0 or -1
            x, y = s.norm(args[0]), s.norm(args[1])
            if s.isbit(x) and s.isbit(y): return s.band(x, y)
            for u, v in ((x, y), (y, x)):
                if list(v.p) == [()]:
                    k = v.p[()]
                    if k & (k + 1) == 0: return s.mod(u, k.bit_length())
                    low = k & -k
                    if (k + low) & (k + low - 1) == 0:       # contiguous mask
                        t = s.mod(u, k.bit_length()); return s.add(t, s.mod(t, low.bit_length() - 1), -1)
                    inv = ((1 << w) - 1) ^ k
                    if inv & (inv + 1) == 0: return s.add(u, s.mod(u, inv.bit_length()), -1)
            if DBG: print('and', i, [(a, s.nodes[a], s.norm(a).p) for a in args])
            raise NotSupported('and')
        if op in ('bvor', 'bvxor'):
            if len(args) != 2:
                xs = [s.norm(a) for a in args]
                if not all(s.isbit(x) for x in xs): raise NotSupported(op)
                r = xs[0]
                for x in xs[1:]: r = s.bor(r, x) if op == 'bvor' else s.bxor(r, x)
                return r
            x, y = s.norm(args[0]), s.norm(args[1])
            for u, v in ((x, y), (y, x)):
                if v.hi < (1 << min(s.tz(u.p), 4096)): return s.add(u, v)
            if s.isbit(x) and s.isbit(y):
                if op == 'bvor': return s.bor(x, y)
                return s.bxor(x, y)
            if DBG: print(op, i, [(a, s.nodes[a], s.norm(a).p, [s.nodes[z] for z in s.nodes[a][3]]) for a in args])
            raise NotSupported(op)
        if op == 'if':
            c, x, y = s.T(args[0]), s.norm(args[1]), s.norm(args[2])
            if x.p == {(): 1} and not y.p: return c
            if not x.p and y.p == {(): 1}: r = s.add(s.C(1), c, -1); return r
            r = s.add(s.mul(c, s.add(x, y, -1)), y); r.lo, r.hi = min(x.lo, y.lo), max(x.hi, y.hi)
            return s.name(r)
        if op == 'bvult': return s.lt(s.norm(args[0]), s.norm(args[1]), s.nodes[args[0]][1])
        if op == 'bvule':
            r = s.lt(s.norm(args[1]), s.norm(args[0]), s.nodes[args[0]][1]); return s.add(s.C(1), r, -1)
        if op == 'bvugt': return s.lt(s.norm(args[1]), s.norm(args[0]), s.nodes[args[0]][1])
        if op == 'bvuge':
            r = s.lt(s.norm(args[0]), s.norm(args[1]), s.nodes[args[0]][1]); return s.add(s.C(1), r, -1)
        if op == 'not': return s.add(s.C(1), s.T(args[0]), -1)
        if op == 'and':
            r = s.T(args[0])
            for a in args[1:]: r = s.band(r, s.T(a))
            return r
        if op == 'or':
            r = s.T(args[0])
            for a in args[1:]: r = s.bor(r, s.T(a))
            return r
        if op in ('=', 'iff'):
            x, y = (s.norm(a) if s.nodes[a][1] else s.T(a) for a in args)
            if s.isbit(x) and s.isbit(y):
                if list(y.p) == [()] or not y.p: return x if y.p else s.add(s.C(1), x, -1)
                if list(x.p) == [()] or not x.p: return y if x.p else s.add(s.C(1), y, -1)
            w0 = s.nodes[args[0]][1]
            if not y.p or not x.p:      # zero test: x == 0  <=>  x < 1
                t = x if not y.p else y
                r = s.lt(t, s.C(1), w0); s.zt[key(r.p)] = (t, w0)
                return r
            r = s.add(s.add(s.C(1), s.lt(x, y, w0), -1), s.lt(y, x, w0), -1); r.lo, r.hi = 0, 1
            return s.name(r)
        raise NotSupported(op)

    # ------------------------------------------------------------ solver
    def z3lin(s, l, vs):
        return z3.Sum([z3.IntVal(c) if m == () else c * vs(m) for m, c in l.items()]) if l else z3.IntVal(0)

    def system(s, seed=None):
        """all constraints; with `seed` only those connected (through carries) to the seed variables, for local queries"""
        return s.eqs, s.cons

    def solver(s, eqs, cons, extra=()):
        S = z3.SolverFor('QF_LIA') if False else z3.Solver()
        S.set('timeout', int(s.tmo * 1000))
        seen = {}

        def vs(m):
            if len(m) == 1: nm = m[0]
            else:
                nm = s.prodnames.get(m)
                if nm is None:
                    nm = '*'.join(m)
                    if nm not in s.var: s.var[nm] = s.mono_iv(m)
            if nm not in seen:
                v = z3.Int(nm); seen[nm] = v
                lo, hi = s.var[nm]; S.add(v >= lo, v <= hi)
            return seen[nm]
        for l in eqs: S.add(s.z3lin(l, vs) == 0)
        for l, lo, hi in cons:
            e = s.z3lin(l, vs)
            if lo is not None: S.add(e >= lo)
            if hi is not None: S.add(e <= hi)
        return S, vs, seen

    def local(s, l, depth=2):
        """equations within `depth` definitions of the variables of l"""
        names = {v for m in l for v in ([s.prodnames.get(m)] if len(m) > 1 else m)}
        use, ucon = [], []
        for _ in range(depth):
            new = set()
            for e in s.eqs[-60:]:
                vs = {v for m in e for v in m}
                if vs & names and e not in use: use.append(e); new |= vs
            for c in s.cons[-60:]:
                vs = {v for m in c[0] for v in m}
                if vs & names and c not in ucon: ucon.append(c); new |= vs
            names |= new
        return use, ucon

    def valid_le(s, v, k):
        """is v <= k always? (local query)"""
        if v.hi <= k: return True
        eqs, cons = s.local(v.l)
        S, vs, _ = s.solver(eqs, cons)
        S.set('timeout', 3000)
        S.add(s.z3lin(v.l, vs) > k)
        t = time.time(); r = S.check(); s.solver_s += time.time() - t; s.queries += 1
        return r == z3.unsat

    def cone(s, l):
        """constraints that define, directly or not, the variables of form l"""
        vars_of = lambda e: [s.prodnames.get(m, '*'.join(m)) if len(m) > 1 else m[0] for m in e if m]
        first = {}
        for k, e in enumerate(s.eqs):
            for v in vars_of(e): first.setdefault(v, k)
        parts = {nm: m for m, nm in s.prodnames.items()}
        todo, got, eqs = vars_of(l), set(), set()
        while todo:
            v = todo.pop()
            if v in got: continue
            got.add(v)
            if v in first and first[v] not in eqs:
                eqs.add(first[v]); todo += vars_of(s.eqs[first[v]])
        return [s.eqs[k] for k in sorted(eqs)], [c for c in s.cons if set(vars_of(c[0])) <= got]

    def refute(s, build, tmo=None, cone=None):
        """build(S, vs) adds the negated claim; returns ('holds'|'cex'|'unknown', model dict)"""
        if cone is not None:
            eqs, cons = s.cone(cone)
            if len(eqs) < len(s.eqs):
                S, vs, seen = s.solver(eqs, cons)
                S.set('timeout', int((tmo or s.tmo) * 500))
                build(S, vs)
                t = time.time(); r = S.check(); s.solver_s += time.time() - t; s.queries += 1
                if DBG: print('cone', r, len(eqs), len(s.eqs), time.time() - t, flush=True)
                if r == z3.unsat: return 'holds', None
        S, vs, seen = s.solver(s.eqs, s.cons)
        if tmo: S.set('timeout', int(tmo * 1000))
        build(S, vs)
        t = time.time(); r = S.check(); s.solver_s += time.time() - t; s.queries += 1
        if r == z3.unsat: return 'holds', None
        if r == z3.unknown: return 'unknown', None
        m = S.model()
        return 'cex', {n: (m.eval(v, model_completion=True).as_long()) for n, v in seen.items()}

    def value(s, name, n, off=0):
        """integer value of output words name_off .. name_{off+n-1}"""
        r = s.C(0)
        for k in range(n): r = s.add(r, s.scale(s.norm(s.outs['%s_%d' % (name, off + k)]), 1 << (64 * k)))
        return r

    def invalue(s, name, n, off=0):
        r = s.C(0)
        for k in range(n): r = s.add(r, s.scale(s.inp('%s_%d' % (name, off + k)), 1 << (64 * k)))
        return r

    def factors(s, l):
        """left-over terms (input monomial) * (form in carries): prove the forms zero and drop those terms"""
        isc = lambda v: v[0] == 'c' and v[1:].isdigit()
        by = defaultdict(dict)
        for m, c in l.items():
            cs = [v for v in m if isc(v)]
            if len(m) > 1 and len(cs) == 1: by[tuple(v for v in m if not isc(v))][(cs[0],)] = c
        forms = {}
        for co, f in by.items():
            g = 0
            for c in f.values(): g = math.gcd(g, c)
            f = dict(sorted((m, c // g) for m, c in f.items()))
            if next(iter(f.values())) < 0: f = pscale(f, -1)
            forms.setdefault(tuple(f.items()), []).append(co)
        if len(forms) > 8: return l
        l = dict(l)
        for f, cos in forms.items():
            f = dict(f)
            if s.refute(lambda S, vs: S.add(s.z3lin(f, vs) != 0), tmo=min(s.tmo, 30), cone=f)[0] != 'holds' and not s.relaxed(f, set()): continue
            s.cons.append((f, 0, 0))
            for co in cos:
                for m in f: l.pop(tuple(sorted(co + m)), None)
        return l

    def prove_zero(s, p, modulus=None):
        """polynomial p is zero (or divisible by modulus) for all values satisfying the constraints"""
        if modulus:
            q = {}
            for m, c in p.items():
                c %= modulus
                if c > modulus // 2: c -= modulus
                if c: q[m] = c
            p = q
        s.queries += 1
        if not p: return 'holds', None
        g = 0
        for c in p.values(): g = math.gcd(g, c)
        l = {m: c // g for m, c in p.items()}
        if len(l) > 150: return 'unknown', None
        l = s.factors(l)
        if not l: return 'holds', None
        if any(len(m) > 1 and len([v for v in m if v[0] in 'ab' and '_' in v]) for m in l) and len(l) > 200: return 'unknown', None
        if len(l) <= 4 or len(l) > 60: return s.refute(lambda S, vs: S.add(s.z3lin(l, vs) != 0), cone=l)
        # several left-over carries: decide them one by one, then the rest by a telescoped range lemma
        zero = set()
        for m in sorted(l, key=lambda m: [int(v[1:]) if v[0] not in 'ab' or '_' not in v else 0 for v in m]):
            if len(m) != 1 or len(l) == 1: continue
            if s.refute(lambda S, vs: S.add(vs(m) != 0), tmo=min(s.tmo, 20), cone={m: 1})[0] == 'holds':
                zero.add(m[0]); s.cons.append(({m: 1}, 0, 0)); s.var[m[0]] = (0, 0)
        l = {m: c for m, c in l.items() if not any(v in zero for v in m)}
        if not l: return 'holds', None
        if DBG: print('left', l, 'zero', zero)
        by = defaultdict(dict)          # parts of equal weight
        for m, c in l.items(): by[abs(c)][m] = c
        lem = []
        for _ in range(2):
            for x in by.values():
                if x not in lem and s.relaxed(x, zero, lem): lem.append(x)
        if len(lem) == len(by): return 'holds', None
        return s.refute(lambda S, vs: S.add(s.z3lin(l, vs) != 0), cone=l)

    def relaxed(s, l, zero, lemmas=()):
        """is the form l always 0?  All word-range facts in expanded form, one rational variable per monomial (a sound relaxation).
        Simplex is sensitive to the order of the rows: several orders, short limits"""
        sub = lambda p: {m: c for m, c in p.items() if not any(x in zero for x in m)}
        facts = [(sub(dict(sorted(k))), lo, hi) for k, (lo, hi) in s.known.items()]
        g = 0
        for c in l.values(): g = math.gcd(g, c)
        for side in (1, -1):
            ok = False
            for att in range(12):
                S = z3.SolverFor('QF_LRA'); S.set('timeout', int(min(s.tmo, 2 + att) * 1000))
                rng = random.Random(att); fs = list(facts); seen = {}
                if att: rng.shuffle(fs)

                def vs(m):
                    if m not in seen:
                        seen[m] = z3.Real('*'.join(m)); lo, hi = s.mono_iv(m); S.add(seen[m] >= lo, seen[m] <= hi)
                    return seen[m]
                for x in lemmas: S.add(s.z3lin(x, vs) == 0)
                for p, lo, hi in fs:
                    e = s.z3lin(p, vs); S.add(e >= lo, e <= hi)
                S.add(side * s.z3lin(l, vs) >= g)
                t = time.time(); r = S.check(); s.solver_s += time.time() - t; s.queries += 1
                if DBG: print('relaxed', att, r, time.time() - t, len(seen), len(s.known), flush=True)
                if r == z3.sat: return False
                if r == z3.unsat: ok = True; break
            if not ok: return False
        return True
