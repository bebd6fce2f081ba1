from vlib import *
c = Check('P19', 'symbolic execution of both main() functions', 'every combination of outcomes of parsing, generation, verification, allocation, each write and the flush; prove: no argument, --initial, and any argument differing from it in one character; four sizes; argument lists up to one argument',
          stubs=['Parse*, Generate, Prove, Verify, Dump*: outcome symbolic (their behaviour: P12, P14, P15, P23)', 'stdio: a stream with a buffer whose flush may fail', 'malloc may fail'])
R = [(f, 'stub_' + f) for f in 'malloc calloc free fflush fclose ferror fputs fputc fprintf strcmp exit'.split()]
th = []
for sz in SIZES:
    for w in ('prove', 'verify'):
        th.append(lambda sz=sz, w=w: symx(c, '%s_p%d' % (w, sz), 'cli.c', entry='h_' + w, defs=['SZ=%d' % sz, 'CLIFILE="%s/%s.c"' % (CIMPL, w)] + (['CLI_PROVE'] if w == 'prove' else []), replace=R, params=dict(POIK_REPS=2), bounds='p%d' % sz, native_cflags=('-O0', '-fno-builtin')))
c.parallel(th)
c.finish()
