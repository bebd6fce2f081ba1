"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json (run: python3 tools/gen.py)."""
S = 'c-impl/PQCrypto-SIDH/src/'
FIELD = [S + 'P434/generic/fp_generic.c', S + 'P434/AMD64/fp_x64.c', S + 'P434/AMD64/fp_x64_asm.S', S + 'P503', S + 'P610', S + 'P751']


def P(id, title, statement, over, text, why, files, mech, observe, tech=None, note=None, na=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None),
                _tech=tech, _note=note, _na=na)


SX = 'symbolic execution of the real C code (own LLVM-IR executor engine/symx, Z3-decided) against a reference; counterexample replayed natively'
INT = 'symbolic execution of the real code (LLVM IR and translated x64 machine code) into exact integer carry equations, decided by Z3 over the integers; counterexample replayed natively'
SYM = 'symbolic execution (CBMC, SAT-decided) of the real C code against a reference, counterexample replayed natively'
PROPS = [
P('P01', 'Field addition, subtraction, negation, halving and reduction are exact',
  'For every pair of field elements in the documented working range [0,2p), adding, subtracting, negating, halving and correcting returns the mathematically right residue modulo p, inside the documented output range (correction: the unique value below p). '
  'The multiprecision add/subtract helpers return the exact integer result or the documented p-multiple offset. This holds for the portable and the x64 assembly implementation of all four parameter sets.',
  ['inputs', 'configurations'], 'all operand values over the full 434/503/610/751-bit width, all carry patterns; both implementations; four sizes',
  'Unit tests multiply and add a few hundred random elements: carries out of particular words and values at 0, p, 2p-1 have probability around 2^-64 per trial.',
  FIELD + [S + 'fpx.c'], [('fpadd/fpsub/fpneg/fpdiv2/fpcorrection', S + 'P*/generic/fp_generic.c'), ('fpadd*_asm, fpsub*_asm, mp_add*_asm, mp_sub*_asm', S + 'P*/AMD64/fp_x64_asm.S')],
  ['fpadd434 ... fpcorrection751, mp_add*, mp_sub* of internal API'],
  INT),
P('P02', 'Field multiplication and Montgomery reduction are exact',
  'For all operands in the range the field code forms, the multiprecision product is the exact double-width integer product, and Montgomery reduction of any value below p*2^(field words) returns a representative in [0,2p) of that value divided by the Montgomery radix modulo p. '
  'Converting into and out of Montgomery form are inverse and yield the unique canonical value below p. This holds for the portable and the x64 assembly implementation of all four parameter sets.',
  ['inputs', 'configurations'], 'all operand values over the full width, all internal carry patterns; both implementations; four sizes',
  'A dropped carry in the schoolbook/Karatsuba product or in the reduction shows up for about one in 2^64 random operands.',
  FIELD, [('mp_mul', S + 'P*/generic/fp_generic.c, mul*_asm'), ('rdc_mont', S + 'P*/generic/fp_generic.c, rdc*_asm'), ('to_mont/from_mont', S + 'fpx.c')],
  ['mp_mul, rdc_mont, fpmul_mont, fpsqr_mont'],
  INT),
P('P03', 'Quadratic-extension arithmetic is exact and stays in range',
  'For all operands in the working range, multiplication, squaring, addition, subtraction, negation, halving, reduction and Montgomery conversion in GF(p^2) return the right element with both coordinates in the documented range, without intermediate overflow, also when the output aliases an input. '
  'This holds with the portable and the x64 back end (products: portable code of all four parameter sets and x64 code of p751).',
  ['inputs', 'configurations'], 'all operand values, all back ends, all sizes',
  'Lazy reduction relies on bounds that random elements approach with negligible probability; tests sample random elements only.',
  [S + 'fpx.c'] + FIELD, [('fp2mul_mont, fp2sqr_mont, fp2inv_mont, fp2add, fp2sub, fp2neg, fp2div2', S + 'fpx.c'), ('fp2mul*_c0/c1_asm', S + 'P*/AMD64/fp_x64_asm.S')],
  ['fp2*_mont'], INT),
P('P04', 'Every parameter set\'s constants are mutually consistent',
  'In each parameter set the prime equals 2^eA*3^eB-1 and every derived constant agrees with it: multiples of p, Montgomery constants, subgroup orders, key and encoding sizes, and the standard base points lie on the starting curve with exactly the claimed orders. '
  'The isogeny strategies stored for the prime are valid complete traversals for its exponents.',
  ['configurations'], 'every constant of every parameter set in the uncompressed builds',
  'Tests exercise constants only through random exchanges; a strategy entry or an unused table row may be wrong without any test failing.',
  [S + 'P434/P434.c', S + 'P503/P503.c', S + 'P610/P610.c', S + 'P751/P751.c'], [('p434, p434x2, Montgomery_R2, A_gen, B_gen, strat_Alice, strat_Bob', S + 'P*/P*.c'), ('macros', S + 'P*/P*_internal.h, P*_api.h')],
  ['tables in the compiled objects'], 'constants extracted from the compiled code, constraints decided by SMT',
  na='ground evaluation of stored constants: there is no symbolic input for a solver to range over (the traversal strategies, the part with a quantifier, are decided in P16)'),
P('P05', 'Curve and isogeny formulas compute the right maps',
  'Point doubling, tripling, differential addition, 2-, 3- and 4-isogeny construction and evaluation, j-invariant, coefficient recovery and three-way inversion return, for all inputs, the projective values prescribed by Montgomery-curve theory, also when outputs alias inputs as in the callers. '
  'Every operand fed to the field layer stays within that layer\'s precondition.',
  ['inputs', 'configurations'], 'all field values (as polynomial identities over GF(p^2)), all sizes',
  'Tests run whole key exchanges on random keys; wrong formulas for degenerate or rarely used paths are not visible there.',
  [S + 'ec_isogeny.c', S + 'poik.c', S + 'sidh.c'], [('xDBL, xTPL, xDBLADD, get_4_isog, eval_4_isog, get_3_isog, eval_3_isog, get_2_isog, eval_2_isog, inv_3_way, get_A, j_inv', S + 'ec_isogeny.c')],
  ['functions of ec_isogeny.c'], 'symbolic execution of the real formulas into polynomial terms, SMT verdict',
  na='identities over GF(p^2) with products of many unknowns: a word-level encoding of whole formulas is out of reach of the solvers here, and the ring-level encoding was not built in the time available'),
P('P06', 'Byte encodings of integers and field elements round-trip exactly',
  'Decoding reads the little-endian value (real part first), encoding writes exactly the documented number of bytes, and encode after decode returns the original bytes for every canonical input and every length in use. '
  'Nothing outside the destination is written.',
  ['inputs', 'configurations'], 'all byte strings, all lengths used (1..field width), four sizes',
  'Tests only encode values produced by the library itself.', [S + 'fpx.c'], [('encode_to_bytes, decode_to_digits, fp2_encode, fp2_decode', S + 'fpx.c')], ['fp2_encode/fp2_decode'], SYM),
P('P07', 'Branch-free compare, select and swap primitives are correct for all inputs',
  'The constant-time comparison reports equality exactly for equal strings, conditional move copies all bytes or none, conditional swap exchanges complete points or nothing, and digit and field comparisons agree with integer comparison, for every input and every length.',
  ['inputs', 'configurations'], 'all contents; lengths up to the stated bound; four sizes',
  'Tests reach these helpers only with random data, for which most wrong comparisons still look right.', [S + 'fpx.c', S + 'ec_isogeny.c', S + 'poik.c', S + 'config.h'],
  [('ct_compare, ct_cmov', S + 'fpx.c'), ('swap_points', S + 'ec_isogeny.c'), ('fp_lt, fp_equal, fp2_equal', S + 'poik.c')], ['helpers'], SYM),
P('P08', 'KEM decapsulation re-encrypts and rejects implicitly',
  'Encapsulation derives ephemeral key, ciphertext and shared secret from message and public key by the specified hashes, and decapsulating an honest ciphertext returns the encapsulated secret. '
  'For every ciphertext that is not the re-encryption of the recovered message, in any byte, decapsulation returns the hash of the stored rejection value and the ciphertext, without writing outside its buffers.',
  ['inputs', 'configurations'], 'all secret keys, messages, ciphertexts and positions of a modification; compressed and uncompressed; four sizes',
  'Tests alter one fixed byte of a ciphertext; a comparison that skips other bytes passes.', [S + 'sike.c', S + 'compression/sike_compressed.c'],
  [('crypto_kem_keypair/enc/dec', S + 'sike.c'), ('ct_compare + ct_cmov', S + 'sike.c')], ['crypto_kem_enc_SIKEp*, crypto_kem_dec_SIKEp*'], SX),
P('P09', 'SHAKE256 is implemented exactly',
  'For every message and output length the hash equals the FIPS 202 function: padding and domain byte are placed right at every length including block boundaries, incremental absorb/squeeze equals one-shot, and nothing outside the output is written.',
  ['inputs'], 'all message contents; message lengths 0..280 and output lengths 0..280 around the 136-byte rate; the permutation on all states',
  'Known-answer tests cover a handful of lengths, all those of the KEM.', [S + 'sha3/fips202.c'], [('keccak_absorb, keccak_squeezeblocks, KeccakF1600_StatePermute, shake256', S + 'sha3/fips202.c')], ['shake256, shake256_absorb, shake256_squeezeblocks'], SX,
  na='not built in the time available: 24 rounds over 1600 bits against a reference plus length-dependent padding'),
P('P10', 'Random bytes are complete and come from the system source under all faults',
  'Whenever the random generator reports success, every requested byte was delivered by the operating system source and nothing outside the buffer was written, for any pattern of short reads, read errors and failed opens, across repeated calls.',
  ['inputs', 'fault_sequences', 'histories'], 'all schedules of short/failing reads and opens within the bound, request sizes within the bound',
  'Short reads and failures of /dev/urandom never occur in tests.', [S + 'random/random.c'], [('randombytes', S + 'random/random.c')], ['randombytes'], SYM),
P('P11', 'Fiat-Shamir challenges are ternary, complete, unbiased and bind the commitment',
  'The challenge is a deterministic function of the domain-separated complete commitment (both curve invariants and every hash, all bytes), squeezed from the hash as a stream. Every challenge digit is -1, 0 or 1, exactly one per repetition, obtained from uniform bytes by rejection so that no value is favoured.',
  ['inputs', 'configurations'], 'all commitments and all hash outputs within the squeeze bound; four sizes',
  'Tests accept any deterministic challenge function, since prover and verifier share the code.', [S + 'poik.c'], [('Challenge', S + 'poik.c'), ('sample_ternary', S + 'poik.c')], ['Prove/Verify (challenge)'], SX),
P('P12', 'A proof is accepted exactly when every required check passes',
  'The verifier accepts only if both end curves and every revealed curve are valid, every response tag equals the recomputed challenge, every revealed chain consists of full-order kernels without backtracking starting at the right curve, and all recomputed commitments together with both curve invariants determine the challenge. '
  'Any proof that meets all these conditions is accepted.',
  ['inputs', 'configurations'], 'all proofs over an abstract universe of curves and points with arbitrary isogeny relations; all tag combinations; four sizes',
  'Tests tamper with a few fields of honest proofs; omissions in rarely hit checks stay invisible.', [S + 'poik.c'], [('Verify, Unpack_Response, Unpack_Chain_A, Unpack_Chain_B', S + 'poik.c')], ['Verify'], SYM),
P('P13', 'Responses open exactly what the challenge asks for and nothing more',
  'For each challenge digit the prover\'s response contains exactly the openings and chain the verifier needs for that digit, and its bytes do not depend on the hiding value, chain or curves belonging to the other digits. Kernel points of the secret side are published only after multiplication by a fresh random odd scalar.',
  ['inputs', 'configurations'], 'all prover states, all challenge digits, four sizes',
  'A leak of unasked material is not observable by a verifier and no test looks for it.', [S + 'poik.c'], [('Pack_Response, Pack_Chain_A, Pack_Chain_B', S + 'poik.c')], ['Prove output'], SX),
P('P14', 'Proof files round-trip and malformed ones are rejected safely',
  'Writing a proof and reading it back restores every field of every response for any content, and field elements and tags are written in the documented textual form. '
  'Any truncated or malformed text is rejected without reading or writing outside the proof structure, and a write error is reported.',
  ['inputs', 'fault_sequences', 'configurations'], 'all proof contents; all input texts of bounded length; a write failure at every position',
  'Tests round-trip honest proofs only.', [S + 'poik.c'], [('Dump, Dump_Fp2, Parse, Parse_Fp2', S + 'poik.c')], ['Dump/Parse'], SX),
P('P15', 'Only curves with proven group order are accepted as valid',
  'Curve validation accepts only after it has exhibited points whose orders force the group order to be the supersingular one, counting independent components only, and rejects as soon as a sampled point is not annihilated by p+1. '
  'The threshold on the exhibited order is never below the bound 4p for any combination of 2- and 3-parts, and full-order evidence always suffices.',
  ['inputs', 'configurations'], 'all sequences of sampled point orders and relations within the bound; all (2-part,3-part) exponent pairs; four sizes',
  'Tests validate supersingular curves almost exclusively; the acceptance threshold is never approached.', [S + 'poik.c'], [('Check_Curve, proves_order', S + 'poik.c')], ['Verify/Generate on arbitrary curves'], SX),
P('P16', 'Isogeny walks use kernels of exactly the right order at every step',
  'An isogeny is computed only for kernel points of exact full order; any other point is refused. Every elementary step is then performed with a point of exactly the step\'s order on the current curve, all auxiliary points are carried through every step, and generated chains never backtrack. This is about the walks of the proof system.',
  ['inputs', 'configurations'], 'all kernel orders (abstract order model); every row of the traversal; four sizes; proof system walks',
  'Points of smaller order do not occur in tests apart from a few random ones.', [S + 'poik.c', S + 'sidh.c'], [('Isogeny_A, Isogeny_B', S + 'poik.c'), ('Random_Isogeny_Chain_A/B, Random_Point_AB', S + 'poik.c')], ['Verify, Generate, Prove'], SX),
P('P17', 'Proving and verifying give the same result under every thread schedule',
  'With any number of worker threads and any interleaving, each repetition is processed exactly once and completely before the result is used, and verification succeeds only if every repetition succeeded. Failure of one repetition is never lost.',
  ['schedules', 'inputs', 'configurations'], 'all interleavings of the stated number of workers and repetitions',
  'Tests see the schedules the machine happens to produce.', [S + 'poik.c'], [('run_threads, Worker_*', S + 'poik.c')], ['Prove/Verify'], SX),
P('P18', 'Repetition count and hash lengths reach the claimed security level',
  'For the four parameter sets (128, 128, 192 and 256 bits) the soundness error (2/3)^repetitions is at most 2^-level, commitments are at least twice the level long, and hiding randomness is at least twice the commitment length.',
  ['configurations'], 'the four parameter sets', 'A proof with fewer repetitions verifies just as well.', [S + 'poik.h'], [('POIK_REPS, HASH_BYTES, HIDE_BYTES', S + 'poik.h')], ['struct proof layout'],
  'constants of the compiled code, SMT verdict on the bounds'),
P('P19', 'The command-line tools succeed only when their output is complete and right',
  'The verify tool exits with success only if the input parsed, the proof verified and both end curves were completely written to its output; the prove tool exits with success only if the whole proof of a freshly generated secret was written. Every failure gives a nonzero exit status, also when the output medium fails.',
  ['inputs', 'fault_sequences'], 'all outcomes of parsing, verification, allocation and every write/flush', 'Tests never fail allocation or output.', ['c-impl/prove.c', 'c-impl/verify.c'], [('main', 'c-impl/prove.c, c-impl/verify.c')], ['exit status and stdout'], SX),
P('P20', 'Key compression arithmetic is exact',
  'The integer arithmetic modulo the subgroup orders used by compressed keys (multiplication, inversion, comparison, reduction modulo 3^e and 2^e, signed-digit recoding) returns the exact result for all operands in range.',
  ['inputs', 'configurations'], 'all operand values in range, four sizes', 'Tests compress random keys only; results near the order boundary are not reached.', [S + 'fpx.c', S + 'compression/sidh_compressed.c'],
  [('Montgomery_multiply_mod_order, multiply, mod3, ...', S + 'fpx.c')], ['compressed KEM'], SYM,
  na='not built in the time available (the integer engine of P01/P02 would apply)'),
P('P21', 'Isomorphic curves get one canonical model',
  'For every non-singular Montgomery coefficient all six models are isomorphic to the input with a correct coordinate map, and the canonical choice depends only on the isomorphism class and is the smallest coefficient in the documented order.',
  ['inputs'], 'all coefficients over a reduced-size field', 'Tests try a few random curves.', [S + 'poik.c'], [('all_models, canonical_model, change_model, solve_quadratic, fp2sqrt', S + 'poik.c')], ['Prove/Verify'], SYM,
  na='square roots over the field of definition: only a toy-field abstraction would be decidable; not built in the time available'),
P('P22', 'Secret scalars and random field elements cover their whole range',
  'Every secret scalar produced by the samplers is in the documented range and every value of that range can be produced, using each entropy byte; random field elements likewise cover the whole field.',
  ['inputs', 'configurations'], 'all entropy strings, four sizes', 'A sampler that loses entropy still yields valid keys.', [S + 'sidh.c', S + 'poik.c', S + 'compression/sidh_compressed.c'], [('random_mod_order_A/B', S + 'sidh.c'), ('fprand', S + 'poik.c')], ['keys, proofs'], SX),
P('P23', 'An honest prover\'s commitments and responses fit together',
  'For every secret chain and all randomness, the curves, kernels and hidden values an honest prover commits to form a commuting grid: the left, bottom and right chains start and end at the committed curves, so that each possible response recomputes the commitments.',
  ['inputs', 'configurations'], 'abstract isogeny grid with arbitrary labels, real and reduced grid sizes', 'Tests run a handful of honest proofs for one size.', [S + 'poik.c'], [('Instance, Prove, Generate', S + 'poik.c')], ['Prove then Verify'], SX),
]
