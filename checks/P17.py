from vlib import *
c = Check('P17', 'bounded symbolic execution with all interleavings', 'all interleavings with at most the stated number of preemptions (free switches when a thread blocks or ends), at every atomic and every shared memory access of the real code; 2 workers x 2-3 repetitions with 2-3 preemptions and 3 workers x 3 repetitions with 2 preemptions (quick), up to 4 workers x 4 repetitions and 4 preemptions (thorough); every combination of failing repetitions',
          stubs=['Instance, Pack_Response, Unpack_Response, Challenge: logging stand-ins with separate start/finish writes', 'curve packing: no-op', 'pthread_create/join: modelled threads, never failing'])
R = [(f, 'stub_' + f) for f in 'Instance Pack_Response Unpack_Response Challenge unpack_curve pack_curve enc_j sysconf malloc free'.split()]
cases = [(sz, 2, 2, 2) for sz in SIZES] + [(434, 2, 3, 3), (434, 3, 3, 2)]
if not c.quick: cases += [(434, 3, 2, 3), (434, 2, 4, 4), (434, 3, 3, 3), (434, 4, 4, 2), (503, 2, 3, 3), (610, 2, 3, 3), (751, 2, 3, 3)]
th = []
for sz, nw, reps, ctx in cases:
    for e in ('prove', 'verify'):
        th.append(lambda sz=sz, nw=nw, reps=reps, ctx=ctx, e=e: symx(c, '%s_p%d_w%d_r%d_c%d' % (e, sz, nw, reps, ctx), 'threads.c', entry='h_' + e, defs=['SZ=%d' % sz, 'NW=%d' % nw], replace=R,
            params=dict(POIK_REPS=reps), extra=['--ctx', str(ctx), '--allshared', '--max-paths', '3000000'], timeout=600 if c.quick else 5400, bounds='p%d, %d workers, %d preemptions' % (sz, nw, ctx),
            native_cflags=('-O0', '-Xclang', '-fsanitize=thread'), replay_san=False))
c.parallel(th)
c.finish()
