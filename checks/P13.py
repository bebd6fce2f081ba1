from vlib import *
c = Check('P13', 'symbolic execution, all hiding/commitment bytes and randomness symbolic', 'one repetition (responses are independent objects), real chain and hash lengths, all three challenge digits, four sizes',
          stubs=['curve arithmetic replaced by an abstract grid of curves and kernels', 'randombytes: arbitrary bytes, logged', 'Ladder: records its scalar'])
R = [(f, 'stub_' + f) for f in 'Isogeny_A Isogeny_B Random_Isogeny_Chain_B canonical_model eval_iso Check_Curve j_inv fp2div fp2div_enc fp2_decode fp2_encode Ladder Challenge pthread_create pthread_join sysconf'.split()]
c.parallel([lambda sz=sz, w=w: symx(c, 'response_p%d_%s' % (sz, w), 'prover.c', entry='h_response', defs=['SZ=%d' % sz, 'WHICH=%s' % w], replace=R, params=dict(POIK_REPS=1), bounds='p%d digit %s' % (sz, w))
            for sz in SIZES for w in ('-1', '0', '1')])
c.finish()
