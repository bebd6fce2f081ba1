from vlib import *
from intcheck import *
c = Check('P02', 'symbolic execution of the portable C code (LLVM IR) and of the x64 machine code (assembled, disassembled, translated instruction by instruction); every machine word becomes an exact integer polynomial with explicit carry variables; Z3 (linear integer/rational arithmetic) shows that every left-over carry vanishes and that ranges hold',
          'every operand value at full width in the stated range (x64 Karatsuba product of p751: operands below 2^760, which covers every sum the extension-field code forms; all others: all words); reduction: every input below p*2^(field words); four sizes, both implementations; output aliasing as in the callers',
          stubs=['x64 instructions: semantics as written in lib/asm2c.py', 'portable comparison primitives: decided separately in bit-vectors (prims), 64x64 word product of the portable code decided separately (digit_x_digit)'])


def specs(sz, fast):
    n, p = (sz + 63) // 64, PRIMES[sz]
    R = 1 << (64 * n)
    S = {}
    if not fast or sz == 751:        # otherwise inside fpmul*_asm
        m = 1 << 760 if fast else None
        if not fast: S['digit_x_digit'] = Spec('digit_x_digit(a[0],b[0],o)', n, {'A': ('a', 0, 1, None), 'B': ('b', 0, 1, None)}, {'O': (0, 2)}, [('exact word product', lambda v: v.O - v.A * v.B, None)], raw=True)
        S['mp_mul'] = Spec('mp_mul(a,b,o,N)', n, {'A': ('a', 0, n, m), 'B': ('b', 0, n, m)}, {'O': (0, 2*n)}, [('exact product', lambda v: v.O - v.A * v.B, None)])
        S['mp_mul_same'] = Spec('mp_mul(a,a,o,N)', n, {'A': ('a', 0, n, m)}, {'O': (0, 2*n)}, [('exact square', lambda v: v.O - v.A * v.A, None)])
        S['rdc_mont'] = Spec('rdc_mont(a,o)', n, {'A': ('a', 0, 2*n, p*R)}, {'O': (0, n)}, [('right residue', lambda v: v.O * R - v.A, p), ('in [0,2p)', 'O', 2*p)], keep=False)
    G = [('right residue', lambda v: v.O * R - v.A * v.B, p), ('in [0,2p)', 'O', 2*p)]
    ab = fast and sz == 751         # here the product and the reduction are used by contract (their own obligations are above)
    if True:
        AB = {'A': ('a', 0, n, 2*p), 'B': ('b', 0, n, 2*p)}
        S['fpmul_mont'] = Spec('fpmul_mont(a,b,o)', n, AB, {'O': (0, n)}, G, abs=ab)
        S['fpmul_mont_out_is_first'] = Spec('fpmul_mont(a,b,a)', n, AB, {'O': (0, n)}, G, res='a', abs=ab)
        S['fpmul_mont_out_is_second'] = Spec('fpmul_mont(a,b,b)', n, AB, {'O': (0, n)}, G, res='b', abs=ab)
        A = {'A': ('a', 0, n, 2*p)}
        S['fpsqr_mont'] = Spec('fpsqr_mont(a,o)', n, A, {'O': (0, n)}, [('right residue', lambda v: v.O * R - v.A * v.A, p), ('in [0,2p)', 'O', 2*p)], abs=ab)
        S['fpsqr_mont_in_place'] = Spec('fpsqr_mont(a,a)', n, A, {'O': (0, n)}, [('right residue', lambda v: v.O * R - v.A * v.A, p), ('in [0,2p)', 'O', 2*p)], res='a', abs=ab)
        S['to_mont'] = Spec('to_mont(a,o)', n, {'A': ('a', 0, n, p)}, {'O': (0, n)}, [('a*R', lambda v: v.O - v.A * R, p), ('in [0,2p)', 'O', 2*p)], abs=ab)
        S['from_mont'] = Spec('from_mont(a,o)', n, A, {'O': (0, n)}, [('a/R', lambda v: v.O * R - v.A, p), ('canonical: in [0,p)', 'O', p)], abs=ab or not fast)
    return S


if __name__ == '__main__':
    jobs, be = [], {}
    for sz in SIZES:
        for fast in (1, 0):
            try: be[sz, fast] = backend(c, sz, fast)
            except Exception as ex: c.add(Job('backend_p%d_%d' % (sz, fast), verdict='inconclusive', detail=str(ex)))
    L = []
    for sz in SIZES:
        for fast in (1, 0):
            if (sz, fast) not in be: continue
            b = be[sz, fast]
            tag = '_p%d_%s' % (sz, 'x64' if fast else 'portable')
            for k, s in specs(sz, fast).items():
                L.append((-(sz + 200 * (not fast) + 300 * ('mp_mul' in k)), forked(lambda k=k, s=s, sz=sz, fast=fast, b=b, tag=tag: check(c, k + tag, sz, fast, b, s, timeout=200, solver_s=100 if c.quick else 1500))))
            if not fast: jobs.append(lambda sz=sz, b=b: symx(c, 'prims_p%d' % sz, 'prims.c', entry='h_prims', defs=['SZ=%d' % sz], config=b[0], sources=b[1], native_sources=b[2], expect_reach=['end'], bounds='all words', timeout=200))
    c.parallel([x for _, x in sorted(L, key=lambda t: t[0])] + jobs)
    c.finish()
