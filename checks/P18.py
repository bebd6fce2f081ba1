from vlib import *
c = Check('P18', 'symbolic execution with the real parameters', 'real repetition counts, hash and hiding lengths of the four sizes; commitment hash on all inputs; verifier and prover loops with an arbitrary failing repetition or differing challenge digit, with and without worker threads (one worker; schedules: P17)',
          stubs=['per-repetition work (Instance, Pack_Response, Unpack_Response), Challenge (P11), SHAKE256 (P09), curve decoding: stand-ins recording their arguments'])
R = [(f, 'stub_' + f) for f in 'enc_j unpack_curve pack_curve Unpack_Response Instance Pack_Response Challenge pthread_create pthread_join sysconf shake256'.split()]
jobs = []
for sz in SIZES:
    for h in ('h_bounds', 'h_hiding', 'h_verify', 'h_prove'):
        for thr in ((1, 0) if h in ('h_verify', 'h_prove') else (1,)):
            jobs.append(lambda sz=sz, h=h, thr=thr: symx(c, '%s_p%d%s' % (h[2:], sz, '' if thr else '_nothreads'), 'params.c', entry=h, defs=['SZ=%d' % sz], config=POIK_DEFS if thr else FAST_DEFS,
                        replace=R if thr else [r for r in R if 'pthread' not in r[0] and r[0] != 'sysconf'], expect_reach=['end'], bounds='p%d' % sz, timeout=300))
c.parallel(jobs)
c.finish()
