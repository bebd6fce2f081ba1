/* secret scalar samplers and fprand on every entropy string */
#include "vh.h"
#ifdef COMP
#if SZ == 434
#include "P434/P434_compressed.c"
#elif SZ == 503
#include "P503/P503_compressed.c"
#elif SZ == 610
#include "P610/P610_compressed.c"
#else
#include "P751/P751_compressed.c"
#endif
#elif defined(POIK)
#include "poik_tu.h"
#else
#if SZ == 434
#include "P434/P434.c"
#elif SZ == 503
#include "P503/P503.c"
#elif SZ == 610
#include "P610/P610.c"
#else
#include "P751/P751.c"
#endif
#endif
typedef unsigned char u8;
#define MX 128
static u8 ent[3][MX]; static unsigned ndraw, maxdraw = 3, drawn; static int failing = 99;
int stub_randombytes(u8 *b, unsigned long long n)
{
    ASSUME(ndraw < maxdraw);
    if ((int) ndraw == failing) { ++ndraw; return 1; }
    for (unsigned i = 0; i < n; ++i) b[i] = ent[ndraw][i];
    drawn += (unsigned) n; ++ndraw; return 0;
}
static u8 out[2 + MX + 2];
#ifndef POIK
static int call(u8 *o) {
#if WHO == 0
    return random_mod_order_A(o);
#else
    return random_mod_order_B(o);
#endif
}
#if WHO == 0
#define BYTES SECRETKEY_A_BYTES
#else
#define BYTES SECRETKEY_B_BYTES
#endif
/* bits of the documented range: entropy value w in [0,2^FREE) -> scalar MUL*w (+ parity rule) */
#ifdef COMP
#if WHO == 0
#define FREE OALICE_BITS
#define MUL 1
#define EVEN 1
#else
#define FREE (SZ == 434 ? 215 : SZ == 503 ? 250 : SZ == 610 ? 299 : 376)
#define MUL 3
#define EVEN 0
#endif
#else
#define MUL 1
#define EVEN 0
#if WHO == 0
#define FREE OALICE_BITS
#else
#define FREE (OBOB_BITS - 1)
#endif
#endif
static void input(u8 *e, unsigned n) { for (unsigned i = 0; i < n; ++i) e[i] = nd8(); }
void h_scalar(void)
{
    unsigned i;
    for (i = 0; i < sizeof out; ++i) out[i] = 0xcc;
    input(ent[0], BYTES); input(ent[1], BYTES); input(ent[2], BYTES);
    PROVE(call(out + 2) == 0, "succeeds when entropy is available");
    PROVE(out[0] == 0xcc && out[1] == 0xcc && out[2+BYTES] == 0xcc && out[3+BYTES] == 0xcc, "nothing outside the scalar is written");
    /* reduce by MUL and compare with the entropy */
    u8 q[BYTES]; unsigned rem = 0;
    for (i = BYTES; i-- > 0; ) {
#if MUL == 3
        unsigned t = rem << 8 | out[2+i]; q[i] = (u8) (t / 3); rem = t % 3;
#else
        q[i] = out[2+i];
#endif
    }
    PROVE(rem == 0, "multiple of three");
    if (EVEN) PROVE((out[2] & 1) == 0, "even");
    for (i = 0; i < BYTES; ++i) { unsigned lo = 8*i, m = lo >= FREE ? 0 : FREE - lo >= 8 ? 0xff : (1u << (FREE - lo)) - 1; PROVE((q[i] & ~m & 0xff) == 0, "inside the documented range"); }
    REACH("any entropy");
}
void h_cover(void)
{
    unsigned i; u8 w[BYTES];
    for (i = 0; i < sizeof out; ++i) out[i] = 0;
    input(w, BYTES);
    for (i = 0; i < BYTES; ++i) { unsigned lo = 8*i, m = lo >= FREE ? 0 : FREE - lo >= 8 ? 0xff : (1u << (FREE - lo)) - 1; w[i] &= m; ent[0][i] = ent[1][i] = ent[2][i] = w[i]; }
    if (EVEN) { ent[0][0] = ent[1][0] = ent[2][0] = w[0] & 0xfe; w[0] &= 0xfe; }
    PROVE(call(out + 2) == 0, "succeeds");
    PROVE(drawn >= BYTES, "draws enough entropy");
    unsigned c = 0;
    for (i = 0; i < BYTES; ++i) { c += (unsigned) w[i] * MUL; PROVE(out[2+i] == (u8) c, "every scalar of the range is produced by some entropy"); c >>= 8; }
    PROVE(c == 0, "fits");
    REACH("every value");
}
void h_fail(void) { failing = 0; input(ent[1], BYTES); maxdraw = 1; PROVE(call(out + 2) != 0, "reports a failing random source"); REACH("failing source"); }
#else
static void lt(digit_t *x, digit_t k, const char *m) { /* x < k*p */
    unsigned __int128 c = 0; digit_t b = 0, kp[NWORDS_FIELD]; (void) b;
    for (unsigned i = 0; i < NWORDS_FIELD; ++i) { c += (unsigned __int128) ((digit_t *) PRIME)[i] * k; kp[i] = (digit_t) c; c >>= 64; }
    digit_t br = 0; for (unsigned i = 0; i < NWORDS_FIELD; ++i) { unsigned __int128 d = (unsigned __int128) x[i] - kp[i] - br; br = (digit_t) (d >> 127); }
    PROVE(br == 1, m);
}
void h_fprand(void)
{
    static felm_t v;
    for (unsigned j = 0; j < 3; ++j) nd_bytes(ent[j], sizeof(felm_t));
    fprand(v);
    lt(v, 2, "random field elements are in the working range");
    REACH("any entropy");
}
void h_fprand_cover(void)
{
    static felm_t v, w; digit_t br = 0; unsigned i;
    nd_bytes(w, sizeof w);
    for (i = 0; i < NWORDS_FIELD; ++i) { unsigned __int128 d = (unsigned __int128) w[i] - ((digit_t *) PRIME)[i] - br; br = (digit_t) (d >> 127); }
    ASSUME(br == 1);                           /* any canonical field element */
    for (i = 0; i < sizeof w; ++i) ent[0][i] = ent[1][i] = ent[2][i] = ((u8 *) w)[i];
    fprand(v);
    for (i = 0; i < NWORDS_FIELD; ++i) PROVE(v[i] == w[i], "every field element is produced by some entropy");
    REACH("every value");
}
#endif
