/* branch-free comparison / selection / swap primitives and byte codecs of fpx.c, ec_isogeny.c */
#include "vh.h"
#include "poik_tu.h"
#ifndef LEN
#define LEN 24
#endif
void h_compare(void)
{
    uint8_t a[LEN], b[LEN]; nd_bytes(a, LEN); nd_bytes(b, LEN);
    unsigned n = nd8(); ASSUME(n <= LEN);
    bool eq = true; for (unsigned i = 0; i < LEN; ++i) if (i < n) eq &= a[i] == b[i];
    int8_t r = ct_compare(a, b, n);
    PROVE(r == (eq ? 0 : -1), "ct_compare returns 0 exactly for equal inputs and -1 otherwise");
    if (eq) REACH("equal"); else REACH("different");
}
void h_cmov(void)
{
    uint8_t a[LEN], b[LEN], r[LEN]; nd_bytes(a, LEN); nd_bytes(b, LEN);
    unsigned n = nd8(); ASSUME(n <= LEN);
    int8_t sel = (int8_t) nd8(); ASSUME(sel == 0 || sel == -1);
    for (unsigned i = 0; i < LEN; ++i) r[i] = a[i];
    ct_cmov(r, b, n, sel);
    bool ok = true; for (unsigned i = 0; i < LEN; ++i) ok &= r[i] == ((sel && i < n) ? b[i] : a[i]);
    PROVE(ok, "ct_cmov copies exactly len bytes when the selector is -1 and nothing when it is 0");
    REACH("end");
}
void h_swap(void)
{
    point_proj_t P, Q, P0, Q0;
    nd_bytes(P, sizeof(P)); nd_bytes(Q, sizeof(Q));
    memcpy(P0, P, sizeof(P)); memcpy(Q0, Q, sizeof(Q));
    digit_t m = nd64(); ASSUME(m == 0 || m == (digit_t) -1);
    swap_points(P, Q, m);
    unsigned char *p = (void *) P, *q = (void *) Q, *p0 = (void *) P0, *q0 = (void *) Q0;
    bool ok = true; for (unsigned i = 0; i < sizeof(point_proj); ++i) ok &= p[i] == (m ? q0[i] : p0[i]) && q[i] == (m ? p0[i] : q0[i]);
    PROVE(ok, "swap_points exchanges the two points when the mask is all ones and leaves them when it is zero");
    REACH("end");
}
void h_lessthan(void)
{
    digit_t x = nd64(), y = nd64();
    PROVE(is_digit_lessthan_ct(x, y) == (x < y), "is_digit_lessthan_ct");
    PROVE(is_digit_zero_ct(x) == (x == 0), "is_digit_zero_ct");
    PROVE(is_digit_nonzero_ct(x) == (x != 0), "is_digit_nonzero_ct");
    felm_t a, b; nd_bytes(a, sizeof(a)); nd_bytes(b, sizeof(b));
    bool lt = false, eq = true;
    for (int i = NWORDS_FIELD - 1; i >= 0; --i) { if (eq && a[i] != b[i]) { eq = false; lt = a[i] < b[i]; } }
    PROVE(fp_lt(a, b) == (lt ? 0xFF : 0), "fp_lt compares as integers");
    REACH("end");
}
void h_codec(void)
{
    /* encode_to_bytes . decode_to_digits for every length, all digit arrays large enough */
    unsigned char e[8*NWORDS_FIELD], f[8*NWORDS_FIELD + 1]; digit_t x[NWORDS_FIELD], y[NWORDS_FIELD];
    enum { NB = CODEC_NB, ND = (CODEC_NB + 7) / 8 };
    nd_bytes(e, sizeof(e)); nd_bytes(y, sizeof(y)); for (unsigned i = 0; i < sizeof(f); ++i) f[i] = 0xEE;
    decode_to_digits(e, y, NB, ND);
    bool ok = true;
    for (unsigned i = 0; i < 8*ND; ++i) { unsigned char v = (unsigned char) (y[i/8] >> (8*(i%8))); ok &= v == (i < NB ? e[i] : 0); }
    PROVE(ok, "decode_to_digits yields the little-endian value, upper bytes of the last digit zero");
    encode_to_bytes(y, f, NB);
    bool rt = true; for (unsigned i = 0; i < sizeof(f); ++i) rt &= f[i] == (i < NB ? e[i] : 0xEE);
    PROVE(rt, "encode_to_bytes inverts decode_to_digits and writes exactly the stated number of bytes");
    REACH("end");
}
/* fp2 codec with Montgomery conversion replaced by a digit-wise marker (conversion itself: field properties) */
#define MARK 0x5a5a5a5a5a5a5a5aULL
static int nto, nfrom;
void stub_to_mont(const digit_t *a, digit_t *c) { ++nto; for (int i = 0; i < NWORDS_FIELD; ++i) c[i] = a[i] ^ MARK; }
void stub_from_mont(const digit_t *a, digit_t *c) { ++nfrom; for (int i = 0; i < NWORDS_FIELD; ++i) c[i] = a[i] ^ MARK; }
void h_fp2codec(void)
{
    unsigned char e[FP2_ENCODED_BYTES], f[FP2_ENCODED_BYTES + 2]; f2elm_t x;
    nd_bytes(e, sizeof(e)); nd_bytes(x, sizeof(x));
    f[0] = f[FP2_ENCODED_BYTES + 1] = 0xEE;
    fp2_decode(e, x);
    bool ok = true;
    for (unsigned k = 0; k < 2; ++k)
        for (unsigned i = 0; i < 8*NWORDS_FIELD; ++i) {
            unsigned char v = (unsigned char) ((x[k][i/8] ^ MARK) >> (8*(i%8)));
            ok &= v == (i < FP2_ENCODED_BYTES/2 ? e[k*(FP2_ENCODED_BYTES/2) + i] : 0);
        }
    PROVE(ok, "fp2_decode: real part first, little-endian, both halves converted to Montgomery form");
    fp2_encode(x, f + 1);
    bool rt = f[0] == 0xEE && f[FP2_ENCODED_BYTES + 1] == 0xEE;
    for (unsigned i = 0; i < FP2_ENCODED_BYTES; ++i) rt &= f[1 + i] == e[i];
    PROVE(rt, "fp2_encode(fp2_decode(b)) == b on canonical values, nothing written outside");
    PROVE(FP2_ENCODED_BYTES == 2*((NBITS_FIELD + 7)/8) && sizeof(packed_fp2) == FP2_ENCODED_BYTES, "encoded size");
    REACH("end");
}
void h_equal(void)
{   /* equality tests of poik.c on canonical representatives */
    felm_t a, b; nd_bytes(a, sizeof(a)); nd_bytes(b, sizeof(b));
    bool eq = true; for (int i = 0; i < NWORDS_FIELD; ++i) eq &= a[i] == b[i];
    PROVE(fp_equal(a, b) == (eq ? 0xFF : 0), "fp_equal is 0xFF exactly on equal field elements");
    f2elm_t c, d; memcpy(c[0], a, sizeof(felm_t)); nd_bytes(c[1], sizeof(felm_t)); nd_bytes(d, sizeof(d));
    bool e2 = true; for (int i = 0; i < NWORDS_FIELD; ++i) e2 &= c[0][i] == d[0][i] && c[1][i] == d[1][i];
    PROVE(fp2_equal(c, d) == (e2 ? 0xFF : 0), "fp2_equal is 0xFF exactly on equal elements");
    REACH("end");
}
/* canonical difference stand-in: zero iff equal (the field properties establish this for the real fpsub+fpcorrection) */
void fpsub(const digit_t *a, const digit_t *b, digit_t *c) { for (int k = 0; k < NWORDS_FIELD; ++k) c[k] = a[k] ^ b[k]; }
void fpcorrection(digit_t *a) { (void) a; }
