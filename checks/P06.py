from vlib import *
c = Check('P06', 'bounded-symbolic', 'digit codec: every byte string of every length up to the field width (quick: the lengths used by the code and their neighbours); GF(p^2) codec: every byte string, all four parameter sets',
          stubs=['to_mont/from_mont in the GF(p^2) codec: an invertible marker (the conversions are decided by P02/P03)'])
th = []
NW = {434: 7, 503: 8, 610: 10, 751: 12}
for sz in SIZES:
    fb = (sz + 7) // 8
    lens = sorted({1, 7, 8, 9, 27, 28, 32, 38, 39, 47, 48, fb - 1, fb, 8 * NW[sz]} & set(range(1, 8 * NW[sz] + 1))) if c.quick else range(1, 8 * NW[sz] + 1)
    for n in lens:
        th.append(lambda sz=sz, n=n: cbmc(c, 'codec_p%d_n%d' % (sz, n), 'ct.c', entry='h_codec', defs=['SZ=%d' % sz, 'CODEC_NB=%d' % n], unwind=1300, timeout=600, functions=['encode_to_bytes', 'decode_to_digits'], bounds='p%d, %d bytes' % (sz, n)))
    th.append(lambda sz=sz: cbmc(c, 'fp2codec_p%d' % sz, 'ct.c', entry='h_fp2codec', defs=['SZ=%d' % sz, 'CODEC_NB=8'], replace=[('to_mont', 'stub_to_mont'), ('from_mont', 'stub_from_mont')], unwind=1300, timeout=600, functions=['fp2_encode', 'fp2_decode', 'encode_to_bytes', 'decode_to_digits'], bounds='p%d' % sz))
c.parallel(th)
c.finish()
