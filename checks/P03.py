from vlib import *
from intcheck import *
c = Check('P03', 'symbolic execution of fpx.c (LLVM IR) together with the portable C or the translated x64 machine code; exact integer polynomials with explicit carries; Z3 decides the residue of both coordinates, their range, and the preconditions of the word product and reduction',
          'every pair of operands with coordinates below 4p for multiplication and squaring (what the curve formulas feed them), all words for the coordinate-wise operations (equal to the field operation of P01 on each coordinate); not covered: fused x64 fp2mul/fp2sqr of p434/p503/p610; aliasing: none, output=first, output=second, squaring in place; both implementations; four sizes',
          stubs=['portable code and x64 p751: multiprecision product and Montgomery reduction by contract (decided under P02; their preconditions are obligations here)', 'x64 instructions: semantics as written in lib/asm2c.py'])


def specs(sz, fast):
    n, p = (sz + 63) // 64, PRIMES[sz]
    R = 1 << (64 * n)
    ab = not fast or sz == 751
    S = {}
    AL = {'': ('a', 'b', 'o'), '_out_is_first': ('a', 'b', 'a'), '_out_is_second': ('a', 'b', 'b'), '_all_same': ('a', 'a', 'a')}
    O = {'O0': (0, n), 'O1': (n, n)}

    def two(name, m, f0, f1, rng, scale, als=AL, abs=False):
        for sfx, (x, y, z) in als.items():
            parts = {'A0': ('a', 0, n, m), 'A1': ('a', n, n, m)}
            if y == 'b': parts.update({'B0': ('b', 0, n, m), 'B1': ('b', n, n, m)})
            B = (lambda v: (v.B0, v.B1)) if y == 'b' else (lambda v: (v.A0, v.A1))
            S[name + sfx] = Spec('%s(F2(%s),F2(%s),F2(%s))' % (name, x, y, z), n, parts, O,
                [('real part', lambda v, B=B: v.O0 * scale - f0(v.A0, v.A1, *B(v)), p), ('imaginary part', lambda v, B=B: v.O1 * scale - f1(v.A0, v.A1, *B(v)), p), ('real part in [0,2p)', 'O0', rng), ('imaginary part in [0,2p)', 'O1', rng)], res=z, abs=abs)
    two('fp2mul_mont', 4*p, lambda a, b, c, d: a*c - b*d, lambda a, b, c, d: a*d + b*c, 2*p, R, abs=ab)

    def one(name, call, m, f0, f1, rng, scale, res='o', abs=False):
        S[name] = Spec(call, n, {'A0': ('a', 0, n, m), 'A1': ('a', n, n, m)}, O, [('real part', lambda v: v.O0 * scale - f0(v.A0, v.A1), p), ('imaginary part', lambda v: v.O1 * scale - f1(v.A0, v.A1), p), ('real part in range', 'O0', rng), ('imaginary part in range', 'O1', rng)], res=res, abs=abs)
    for sfx, z in (('', 'o'), ('_in_place', 'a')):
        one('fp2sqr_mont' + sfx, 'fp2sqr_mont(F2(a),F2(%s))' % z, 4*p, lambda a, b: a*a - b*b, lambda a, b: 2*a*b, 2*p, R, z, ab)
    one('to_fp2mont', 'to_fp2mont(F2(a),F2(o))', p, lambda a, b: a*R, lambda a, b: b*R, 2*p, 1, 'o', ab)
    if not c.quick or ab: one('from_fp2mont', 'from_fp2mont(F2(a),F2(o))', 2*p, lambda a, b: a, lambda a, b: b, p, R, 'o', ab)
    return S


def hard(k, sz, fast):        # fused x64 product code with lazy reduction: not decided here (see DESIGN.md)
    return fast and sz != 751 and ('fp2mul' in k or 'fp2sqr' in k)


if __name__ == '__main__':
    be, L = {}, []
    for sz in SIZES:
        for fast in (1, 0):
            try: be[sz, fast] = backend(c, sz, fast)
            except Exception as ex: c.add(Job('backend_p%d_%d' % (sz, fast), verdict='inconclusive', detail=str(ex)))
    for sz in SIZES:
        for fast in (1, 0):
            if (sz, fast) not in be: continue
            b = be[sz, fast]
            tag = '_p%d_%s' % (sz, 'x64' if fast else 'portable')
            for k, s in specs(sz, fast).items():
                if hard(k, sz, fast): continue
                L.append((-(sz + 200 * (not fast) + 300 * ('mul' in k or 'sqr' in k)), forked(lambda k=k, s=s, sz=sz, fast=fast, b=b, tag=tag: check(c, k + tag, sz, fast, b, s, timeout=300, solver_s=100 if c.quick else 300))))
            L.append((0, lambda sz=sz, b=b, tag=tag: symx(c, 'coordinatewise' + tag, 'ext2.c', entry='h_lin', defs=['SZ=%d' % sz], config=b[0], sources=b[1], native_sources=b[2], expect_reach=['end'], bounds='p%d, all words' % sz, timeout=300)))
    c.parallel([x for _, x in sorted(L, key=lambda t: t[0])])
    c.finish()
