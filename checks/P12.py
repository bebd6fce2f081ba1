"""P12: Verify accepts exactly the transcripts a reference verifier accepts, and binds everything into the challenge."""
from vlib import *
REPL = [(f, 'stub_' + f) for f in 'Isogeny_A Isogeny_B Check_Curve canonical_model eval_iso j_inv fp2_decode fp2_encode Challenge pthread_create pthread_join sysconf'.split()]
FUN = ['Verify', 'run_threads', 'Worker_Unpack_Response', 'Unpack_Response', 'Unpack_Chain_A', 'Unpack_Chain_B', 'unpack_curve', 'unpack_point', 'enc_j', 'hash_hiding', 'fp2_equal', 'fp_equal', 'ct_compare']


def main():
    c = Check('P12', 'bounded-symbolic', 'abstract universe of 4 curves/4 points with arbitrary isogeny/validity/canonicalisation tables; 1-2 repetitions symbolic (the loop over repetitions treats each independently; all repetitions are covered by P17); chain lengths 2-3 at all tag combinations and real lengths (7/4), hash and hiding lengths per parameter set',
              stubs=['Isogeny_A/B, Check_Curve, canonical_model, eval_iso, j_inv: arbitrary tables over the universe', 'fp2_decode/encode: first byte', 'SHAKE256: fixed linear fold of (input)', 'Challenge: arbitrary trits, argument captured (decided by P11)', 'one worker thread (schedules: P17)', 'tags restricted to int8 range'])
    th = []
    def job(name, sz, tags, params, to=600):
        defs = ['SZ=%d' % sz, 'TAGS=' + tags] + (['NOACC'] if '9' in tags else [])
        th.append(lambda: cbmc(c, name, 'poik_verify.c', defs=defs, replace=REPL, unwind=1200, timeout=to, params=params, functions=FUN, bounds='size p%d, tags %s' % (sz, tags)))
    T = ['-1', '0', '1', '9']
    for sz in SIZES:
        for t in T[:3]:
            job('full_p%d_tag%s' % (sz, t), sz, t, dict(POIK_REPS=1))
    small = dict(POIK_REPS=2, POIK_HEIGHT=3, POIK_WIDTH=2, HASH_BYTES=4, HIDE_BYTES=6)
    for a in T:
        for b in T:
            if a == b == '9': continue
            job('pair_p434_%s_%s' % (a, b), 434, a + ',' + b, small)
    if not c.quick:
        for sz in SIZES:
            for t in ('-1,0,1', '0,1,-1', '1,1,0', '0,0,-1'):
                job('triple_p%d_%s' % (sz, t), sz, t, dict(POIK_REPS=3), 3600)
    c.parallel(th)
    c.finish()
main()
