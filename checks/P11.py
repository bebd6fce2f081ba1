from vlib import *
c = Check('P11', 'bounded symbolic execution', 'sampler: up to 3 bytes and 11 digits (quick) at any contents; whole challenge: commitments of 3 repetitions with all bytes symbolic and the real hash lengths, and the real repetition count with symbolic bytes at the start, middle and end of every squeezed block (remaining bytes fixed)',
          stubs=['SHAKE256: captured input, arbitrary output stream (implementation: P09)'])
th = []
def job(name, entry, sz, defs=(), params=None, to=600):
    th.append(lambda: symx(c, name, 'challenge.c', entry=entry, defs=['SZ=%d' % sz, *defs], timeout=to, params=params, bounds='p%d %s' % (sz, ' '.join(defs))))
n = (3, 11) if c.quick else (5, 21)
for sz in SIZES:
    st = ['SYMPOS=0', 'FILLER=0xff']
    job('sampler_p%d' % sz, 'h_sampler', sz, ['NB=%d' % n[0], 'NT=%d' % n[1]] + st)
    job('injective_p%d' % sz, 'h_injective', sz, st)
    job('absorb_p%d' % sz, 'h_challenge', sz, ['SYMPOS=0,135', 'FILLER=0xff', 'SYMCOMM'], dict(POIK_REPS=3))
    job('stream_p%d' % sz, 'h_challenge', sz, ['SYMPOS=0,135', 'FILLER=250'], dict(POIK_REPS=11))
    job('real_p%d' % sz, 'h_challenge', sz, ['SYMPOS=135', 'FILLER=77'])
c.parallel(th)
c.finish()
