from vlib import *
from intcheck import *
c = Check('P01', 'symbolic execution of the portable C code (LLVM IR) and of the x64 machine code (assembled, disassembled, translated instruction by instruction); exact integer semantics of the resulting terms; Z3 (linear integer arithmetic) decides residue, range and exactness; shifts in Z3 bit-vectors',
          'every operand value at full width (7/8/10/12 words; double width where used) in the stated input range; aliasing: none, output=first, output=second, both operands the same array; both implementations; four sizes',
          stubs=['x64 instructions: semantics as written in lib/asm2c.py', 'portable comparison/multiplication primitives replaced by their exact meaning (decided separately under P02)'])


def specs(sz, fast):
    n, p = (sz + 63) // 64, PRIMES[sz]
    R = 1 << (64 * n)
    full = not fast or sz == 751
    S = {}
    AL = {'': ('a', 'b', 'o'), '_out_is_first': ('a', 'b', 'a'), '_out_is_second': ('a', 'b', 'b'), '_all_same': ('a', 'a', 'a')}

    def two(name, call, m, goals, ow=n, als=AL, w=n):
        for sfx, (x, y, z) in als.items():
            parts = {'A': ('a', 0, w, m)}
            if y == 'b': parts['B'] = ('b', 0, w, m)
            g = [(msg, (lambda v, f=f: f(v.O, v.A, v.B if y_ else v.A)) if callable(f) else f, mm) for msg, f, mm in goals for y_ in [y == 'b']]
            S[name + sfx] = Spec(call % (x, y, z), n, parts, {'O': (0, ow)}, g, res=z)
    two('fpadd', 'fpadd(%s,%s,%s)', 2*p, [('sum is in [0,2p)', 'O', 2*p), ('sum is the right residue', lambda o, a, b: o - a - b, p)])
    two('fpsub', 'fpsub(%s,%s,%s)', 2*p, [('difference is in [0,2p)', 'O', 2*p), ('difference is the right residue', lambda o, a, b: o - a + b, p)])
    two('mp_sub_p2', 'mp_sub_p2(%s,%s,%s)', None, [('a-b+2p', lambda o, a, b: o - a + b - 2*p, R)])
    two('mp_addfast', 'mp_addfast(%s,%s,%s)', None, [('a+b', lambda o, a, b: o - a - b, R)])
    for k in (n, 2*n):
        two('mp_add_%d' % k, 'mp_add(%%s,%%s,%%s,%d)' % k, None, [('sum', lambda o, a, b, k=k: o - a - b, 1 << (64*k))], ow=k, w=k)
        two('mp_sub_%d' % k, 'mp_sub(%%s,%%s,%%s,%d)' % k, None, [('difference', lambda o, a, b, k=k: o - a + b, 1 << (64*k))], ow=k, w=k)
        # with the returned carry/borrow as an extra output word
        S['mp_add_carry_%d' % k] = Spec('o[%d]=mp_add(a,b,o,%d)' % (k, k), n, {'A': ('a', 0, k, None), 'B': ('b', 0, k, None)}, {'O': (0, k + 1)}, [('sum with carry', lambda v: v.O - v.A - v.B, None)])
        S['mp_sub_borrow_%d' % k] = Spec('o[%d]=-(digit_t)mp_sub(a,b,o,%d)' % (k, k), n, {'A': ('a', 0, k, None), 'B': ('b', 0, k, None)}, {'O': (0, k + 1)}, [('difference with borrow', lambda v, k=k: v.O - v.A + v.B, 1 << (64*(k+1)))])
    if full:
        two('mp_sub_p4', 'mp_sub_p4(%s,%s,%s)', None, [('a-b+4p', lambda o, a, b: o - a + b - 4*p, R)])
        for sfx, z in (('', 'o'), ('_out_is_first', 'a')):
            S['mp_subaddfast' + sfx] = Spec('mp_subaddfast(a,b,%s)' % z, n, {'A': ('a', 0, 2*n, p*R), 'B': ('b', 0, 2*n, p*R)}, {'O': (0, 2*n)}, [('congruent to a-b modulo p*2^(field words)', lambda v: v.O - v.A + v.B, p*R), ('in [0,p*2^(field words))', 'O', p*R)], res=z)
        S['mp_dblsubfast'] = Spec('mp_dblsubfast(a,b,o)', n, {'A': ('a', 0, 2*n, None), 'B': ('b', 0, 2*n, None), 'C': ('c', 0, 2*n, None)}, {'O': (0, 2*n)}, [('c-a-b', lambda v: v.O - v.C + v.A + v.B, 1 << (128*n))])
    A = {'A': ('a', 0, n, 2*p)}
    S['fpneg'] = Spec('fpneg(a)', n, A, {'O': (0, n)}, [('negative is in [0,2p]', 'O', 2*p + 1), ('negative is the right residue', lambda v: v.O + v.A, p)], res='a')
    S['fpdiv2'] = Spec('fpdiv2(a,o)', n, A, {'O': (0, n)}, [('half is in [0,2p)', 'O', 2*p), ('twice the half is the operand', lambda v: 2*v.O - v.A, p)])
    S['fpdiv2_out_is_first'] = Spec('fpdiv2(a,a)', n, A, {'O': (0, n)}, [('half is in [0,2p)', 'O', 2*p), ('twice the half is the operand', lambda v: 2*v.O - v.A, p)], res='a')
    S['fpcorrection'] = Spec('fpcorrection(a)', n, A, {'O': (0, n)}, [('corrected value is in [0,p)', 'O', p), ('same residue', lambda v: v.O - v.A, p)], res='a')
    return S


if __name__ == '__main__':
    jobs, be = [], {}
    for sz in SIZES:
        for fast in (1, 0):
            try: be[sz, fast] = backend(c, sz, fast)
            except Exception as ex: c.add(Job('backend_p%d_%d' % (sz, fast), verdict='inconclusive', detail=str(ex)))
    for sz in SIZES:
        for fast in (1, 0):
            if (sz, fast) not in be: continue
            b = be[sz, fast]
            tag = '_p%d_%s' % (sz, 'x64' if fast else 'portable')
            for k, s in specs(sz, fast).items():
                jobs.append(forked(lambda k=k, s=s, sz=sz, fast=fast, b=b, tag=tag: check(c, k + tag, sz, fast, b, s, timeout=120, solver_s=60)))
            jobs.append(lambda sz=sz, b=b, tag=tag: symx(c, 'shift' + tag, 'field.c', entry='h_shift', defs=['SZ=%d' % sz, 'ALIAS=0'], config=b[0], sources=b[1], native_sources=b[2], expect_reach=['end'], bounds='p%d, 1 to 2n words' % sz, timeout=200))
    c.parallel(jobs)
    c.finish()
