from vlib import *
c = Check('P08', 'symbolic execution; keys, messages, ciphertexts, key agreement outcomes and hash outputs symbolic', 'one keypair/encapsulation/decapsulation per run, real buffer sizes, plain and compressed KEM, four sizes, failing random source at each draw',
          stubs=['EphemeralKeyGeneration_*, EphemeralSecretAgreement_*, validate_ciphertext: consistent commuting oracles over the bytes of their inputs', 'shake256: consistent oracle over all input bytes', 'randombytes: arbitrary bytes or failure'])
def rep(sz, comp):
    if comp: return [('EphemeralKeyGeneration_A_extended', 'stub_kgd'), ('EphemeralKeyGeneration_B_extended', 'stub_kge'), ('EphemeralSecretAgreement_A_extended', 'stub_agd'),
                     ('EphemeralSecretAgreement_B_SIDHp%d_Compressed' % sz, 'stub_age'), ('validate_ciphertext', 'stub_val'), ('shake256', 'stub_shake256'), ('randombytes', 'stub_randombytes')]
    return [('EphemeralKeyGeneration_B_SIDHp%d' % sz, 'stub_kgd'), ('EphemeralKeyGeneration_A_SIDHp%d' % sz, 'stub_kge'), ('EphemeralSecretAgreement_B_extended', 'stub_agd'),
            ('EphemeralSecretAgreement_A_SIDHp%d' % sz, 'stub_age'), ('shake256', 'stub_shake256'), ('randombytes', 'stub_randombytes')]
jobs = []
for comp in (0, 1):
    for h, rc in (('h_dec', ['key agreement ok', 'key agreement refused']), ('h_round', ['round trip']), ('h_enc', ['enc']), ('h_keypair', ['keypair']), ('h_fail', ['keypair refused', 'enc refused'])):
        for sz in SIZES:
            jobs.append(lambda sz=sz, h=h, rc=rc, comp=comp: symx(c, '%s_p%d%s' % (h[2:], sz, '_compressed' if comp else ''), 'kem.c', entry=h, defs=['SZ=%d' % sz] + (['COMP'] if comp else []),
                config=FAST_DEFS, replace=rep(sz, comp), expect_reach=rc, bounds='p%d%s' % (sz, ' compressed' if comp else ''), timeout=150))
c.parallel(jobs)
c.finish()
