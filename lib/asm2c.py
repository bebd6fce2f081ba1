"""x86-64 (objdump, intel syntax) -> C: one C statement group per machine instruction, registers and flags as variables.
Only the straight-line subset used by the field arithmetic is known; anything else raises (the caller then decides nothing)."""
import re, subprocess

R64 = ['rax', 'rbx', 'rcx', 'rdx', 'rsi', 'rdi', 'rbp', 'rsp'] + ['r%d' % i for i in range(8, 16)]
SUB = {}
for a, b in zip(['eax', 'ebx', 'ecx', 'edx', 'esi', 'edi', 'ebp', 'esp'], R64): SUB[b] = (b, 64); SUB[a] = (b, 32)
for i in range(8, 16): SUB['r%d' % i] = ('r%d' % i, 64); SUB['r%dd' % i] = ('r%d' % i, 32); SUB['r%db' % i] = ('r%d' % i, 8)
for a, b in [('al', 'rax'), ('bl', 'rbx'), ('cl', 'rcx'), ('dl', 'rdx'), ('sil', 'rsi'), ('dil', 'rdi'), ('bpl', 'rbp')]: SUB[a] = (b, 8)


class Unknown(Exception): pass


def disasm(obj):
    """-> {function: [(addr, mnemonic, [operands], reloc or None)]}"""
    out = subprocess.check_output(['objdump', '-dr', '--no-show-raw-insn', '-M', 'intel', obj], text=True)
    fns, cur = {}, None
    for l in out.splitlines():
        m = re.match(r'^[0-9a-f]+ <([^>]+)>:', l)
        if m: cur = fns.setdefault(m.group(1), []); continue
        m = re.match(r'^\s+([0-9a-f]+): (R_X86_64_\w+)\s+(\S+)', l.replace('\t', ' '))
        if m and cur: cur[-1] = cur[-1][:3] + (m.group(3),); continue
        m = re.match(r'^\s+([0-9a-f]+):\s+(\S.*)$', l)
        if m and cur is not None:
            ins = m.group(2).split('#')[0].strip()
            mn, _, ops = ins.partition(' ')
            ops = ops.strip()
            cur.append((int(m.group(1), 16), mn, [o.strip() for o in ops.split(',')] if ops else [], None))
    return fns


def to_c(obj, only=None):
    fns = disasm(obj)
    names = list(fns)
    o = ['#include <stdint.h>', 'typedef unsigned __int128 u128;']
    ext = set()
    body = []
    for fn, ins in fns.items():
        if only and fn not in only: continue
        try: body.append(func(fn, ins, ext))
        except Unknown as e: body.append('/* %s not translated: %s */' % (fn, e))
    o += ['extern const uint64_t %s[];' % e for e in sorted(ext)]
    return '\n'.join(o + body) + '\n'


def func(fn, ins, ext):
    L = []
    size = [64]

    def mem(op, reloc):
        m = re.match(r'^(?:(QWORD|DWORD|BYTE) PTR )?\[(.*)\]$', op)
        if not m: raise Unknown(op)
        e = m.group(2)
        if 'rip' in e:
            if not reloc: raise Unknown('rip without relocation')
            r = re.match(r'^([A-Za-z_]\w*)([-+]0x[0-9a-f]+)?$', reloc)
            if not r: raise Unknown(reloc)
            ext.add(r.group(1))
            return '(uint64_t) %s + (%d)' % (r.group(1), int(r.group(2) or '0', 16) + 4)
        if re.search(r'[^a-z0-9+*x-]', e): raise Unknown(op)
        for r in re.findall(r'[a-z]\w*', re.sub(r'0x[0-9a-f]+', '', e)):
            if r not in R64: raise Unknown(op)
        return e

    def rd(op, reloc):
        if op in SUB:
            r, w = SUB[op]; size[0] = w
            return r if w == 64 else '(uint32_t) %s' % r if w == 32 else '(uint8_t) %s' % r
        if re.match(r'^-?(0x)?[0-9a-f]+$', op): return '((uint64_t) (%s))' % (op + ('ull' if not op.startswith('-') else ''))
        if op.startswith(('QWORD', '[')): return '(*(uint64_t *) (%s))' % mem(op, reloc)
        if op.startswith('DWORD'): size[0] = 32; return '(*(uint32_t *) (%s))' % mem(op, reloc)
        raise Unknown(op)

    def wr(op, v, reloc):
        if op in SUB:
            r, w = SUB[op]
            if w == 64: return '%s = %s;' % (r, v)
            if w == 32: return '%s = (uint32_t) (%s);' % (r, v)
            return '%s = (%s & ~0xffull) | (uint8_t) (%s);' % (r, r, v)
        if op.startswith(('QWORD', '[')): return '*(uint64_t *) (%s) = %s;' % (mem(op, reloc), v)
        raise Unknown(op)

    for addr, mn, ops, rel in ins:
        size[0] = 64
        if mn in ('nop', 'nopw', 'nopl', 'endbr64', 'cs', 'data16', 'xchg') and (mn != 'xchg' or ops == ['ax', 'ax']): continue
        if mn in ('mov', 'movabs'): L.append(wr(ops[0], rd(ops[1], rel), rel))
        elif mn == 'lea': L.append('%s = %s;' % (SUB[ops[0]][0], mem(ops[1], rel)))
        elif mn in ('add', 'adc', 'sub', 'sbb', 'adcx', 'adox', 'cmp'):
            a, b = rd(ops[0], rel), rd(ops[1], rel)
            if size[0] != 64: raise Unknown('narrow ' + mn)
            ci = {'adc': 'CF', 'sbb': 'CF', 'adcx': 'CF', 'adox': 'OF'}.get(mn, '0')
            L.append('x = %s; y = %s;' % (a, b))
            if mn in ('add', 'adc', 'adcx', 'adox'): L.append('t = (u128) x + y + %s; z = (uint64_t) t;' % ci)
            else: L.append('t = (u128) x - y - %s; z = (uint64_t) t;' % ci)
            if mn == 'adcx': L.append('CF = (uint64_t) (t >> 64);')
            elif mn == 'adox': L.append('OF = (uint64_t) (t >> 64);')
            elif mn in ('add', 'adc'): L.append('CF = (uint64_t) (t >> 64); OF = ((x ^ z) & (y ^ z)) >> 63;')
            else: L.append('CF = (uint64_t) (t >> 64) & 1; OF = ((x ^ y) & (x ^ z)) >> 63;')
            if mn != 'cmp': L.append(wr(ops[0], 'z', rel))
        elif mn in ('and', 'or', 'xor', 'test'):
            if mn == 'xor' and ops[0] == ops[1]: L.append('%s = 0; CF = OF = 0;' % SUB[ops[0]][0]); continue
            v = '%s %s %s' % (rd(ops[0], rel), {'and': '&', 'or': '|', 'xor': '^', 'test': '&'}[mn], rd(ops[1], rel))
            if mn != 'test': L.append(wr(ops[0], v, rel))
            L.append('CF = OF = 0;')
        elif mn == 'neg': L.append('x = %s; CF = x != 0; OF = x == 1ull << 63;' % rd(ops[0], rel)); L.append(wr(ops[0], '0 - x', rel))
        elif mn == 'not': L.append(wr(ops[0], '~%s' % rd(ops[0], rel), rel))
        elif mn in ('inc', 'dec'): L.append('x = %s;' % rd(ops[0], rel)); L.append(wr(ops[0], 'x %s 1' % ('+' if mn == 'inc' else '-'), rel)); L.append('OF = x == %s;' % ('0x7fffffffffffffffull' if mn == 'inc' else '1ull << 63'))
        elif mn in ('shl', 'shr', 'sar'):
            n = int(ops[1], 16) if len(ops) > 1 else 1
            if not 0 < n < 64: raise Unknown(mn)
            L.append('x = %s;' % rd(ops[0], rel))
            if size[0] != 64: raise Unknown('narrow shift')
            L.append('CF = (x >> %d) & 1;' % (64 - n if mn == 'shl' else n - 1)); L.append('OF = 0;')
            L.append(wr(ops[0], {'shl': 'x << %d' % n, 'shr': 'x >> %d' % n, 'sar': '(uint64_t) ((int64_t) x >> %d)' % n}[mn], rel))
        elif mn == 'mulx':
            L.append('t = (u128) rdx * %s;' % rd(ops[2], rel)); L.append(wr(ops[1], '(uint64_t) t', rel)); L.append(wr(ops[0], '(uint64_t) (t >> 64)', rel))
        elif mn == 'mul': L.append('t = (u128) rax * %s; rax = (uint64_t) t; rdx = (uint64_t) (t >> 64); CF = OF = rdx != 0;' % rd(ops[0], rel))
        elif mn in ('setb', 'setc'): L.append(wr(ops[0], 'CF', rel))
        elif mn == 'bt': L.append('CF = (%s >> %d) & 1;' % (rd(ops[0], rel), int(ops[1], 16)))
        elif mn == 'push': L.append('rsp -= 8; *(uint64_t *) rsp = %s;' % rd(ops[0], rel))
        elif mn == 'pop': L.append('x = *(uint64_t *) rsp; rsp += 8;'); L.append(wr(ops[0], 'x', rel))
        elif mn in ('clc', 'stc'): L.append('CF = %d;' % (mn == 'stc'))
        elif mn == 'ret': L.append('return rax;')
        else: raise Unknown('%s %s' % (mn, ','.join(ops)))
    return '''uint64_t %s(uint64_t rdi, uint64_t rsi, uint64_t rdx, uint64_t rcx, uint64_t r8, uint64_t r9)
{
    uint64_t stk[96], rsp = (uint64_t) (stk + 88), rax = 0x1111, rbx = 0x2222, rbp = 0x3333, r10 = 0x4444, r11 = 0x5555, r12 = 0x6666, r13 = 0x7777, r14 = 0x8888, r15 = 0x9999, CF = 0, OF = 0, x, y, z; u128 t;
    (void) x; (void) y; (void) z; (void) t;
    %s
    return rax;
}''' % (fn, '\n    '.join(L))


if __name__ == '__main__':
    import sys
    print(to_c(sys.argv[1]))
