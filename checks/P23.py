from vlib import *
c = Check('P23', 'symbolic execution over an abstract grid', 'Instance: full grid sizes of all four sets; Prove followed by Verify: 2 repetitions (quick) / 3 (thorough), every challenge, real grid and hash lengths; all randomness symbolic',
          stubs=['curve arithmetic replaced by an abstract grid of curves and kernels', 'SHAKE256: fixed linear fold', 'Challenge: arbitrary digits, argument captured', 'one worker thread (schedules: P17)'])
R = [(f, 'stub_' + f) for f in 'Isogeny_A Isogeny_B Random_Isogeny_Chain_A Random_Isogeny_Chain_B canonical_model eval_iso j_inv fp2div fp2div_enc fp2_decode fp2_encode Ladder Challenge pthread_create pthread_join sysconf'.split()]
th = []
for sz in SIZES:
    th.append(lambda sz=sz: symx(c, 'instance_p%d' % sz, 'prover.c', entry='h_instance', defs=['SZ=%d' % sz, 'WHICH=0'], replace=R + [('Check_Curve', 'stub_Check_Curve')], params=dict(POIK_REPS=1), bounds='p%d' % sz, timeout=600))
    th.append(lambda sz=sz: symx(c, 'generate_p%d' % sz, 'prover.c', entry='h_generate', defs=['SZ=%d' % sz, 'WHICH=0'], replace=R + [('Check_Curve', 'stub2_Check_Curve')], params=dict(POIK_REPS=1), bounds='p%d' % sz, timeout=600))
    th.append(lambda sz=sz: symx(c, 'complete_p%d' % sz, 'prover.c', entry='h_complete', defs=['SZ=%d' % sz, 'WHICH=0'], replace=R + [('Check_Curve', 'stub_Check_Curve')], params=dict(POIK_REPS=2 if c.quick else 3), bounds='p%d' % sz, timeout=700 if c.quick else 7200))
c.parallel(th)
c.finish()
