from vlib import *
c = Check('P14', 'symbolic execution against a reference writer and parser', 'field elements: every byte symbolic; whole proofs: every byte symbolic (quick: every 5th or 11th byte, the others fixed to a position-dependent pattern), real field and hash lengths, 1 repetition with every tag and the real chain lengths (quick: p434, p751; thorough: all, 2 repetitions), field elements of all sizes; write faults at every call, truncation at every length and (tags: three combinations quick, all nine thorough) one arbitrary character at every position (quick: every structural position and every 16th hex digit) of proofs with 2 repetitions and shortened chains and hashes',
          stubs=['stdio: in-memory stream with small printf/scanf (harness/vio.h)', 'ctype, strtol: plain C equivalents'])
R = [(f, 'stub_' + f) for f in 'fputc fputs fwrite fprintf snprintf sprintf fgetc ungetc feof ferror fflush fread fgets fscanf'.split()]
R += [('putc', 'stub_fputc'), ('getc', 'stub_fgetc'), ('__isoc99_fscanf', 'stub_fscanf'), ('__isoc23_fscanf', 'stub_fscanf')]
SMALL = dict(POIK_REPS=2, POIK_HEIGHT=2, POIK_WIDTH=1, HASH_BYTES=2, HIDE_BYTES=3)
th = []
def job(name, entry, sz, params, defs=(), to=700):
    th.append(lambda: symx(c, '%s_p%d' % (name, sz), 'textio.c', entry=entry, defs=['SZ=%d' % sz, 'PHASE=0', *defs] + ([] if any(x.startswith('TAGS') for x in defs) else ['TAGS=tags']), replace=R, params=params, bounds='p%d %s' % (sz, ' '.join(defs)), timeout=to if c.quick else 6000, native_cflags=('-O0', '-fno-builtin'), extra=['--max-paths', '1000000']))
for sz in SIZES:
    job('fp2', 'h_fp2', sz, dict(POIK_REPS=1))
    if c.quick and sz in (503, 610): job('roundtrip', 'h_roundtrip', sz, SMALL, ['SYMSTRIDE=5'])
    else: job('roundtrip', 'h_roundtrip', sz, dict(POIK_REPS=1 if c.quick else 2), ['SYMSTRIDE=11'] if c.quick else [])
    job('writefail', 'h_writefail', sz, SMALL)
    if sz == 434 or not c.quick:
        n = 4 if c.quick else 8
        for k in range(n):
            d = ['TAGS=%s' % ('tags3' if c.quick else 'tags'), 'NPART=%d' % n, 'PART=%d' % k]
            job('truncate%d' % k, 'h_truncate', sz, SMALL, d)
            job('mutate%d' % k, 'h_mutate', sz, SMALL, (['STRIDE=16'] if c.quick else []) + d)
c.parallel(th)
c.finish()
