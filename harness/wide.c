/* wide arithmetic as integer functions: inputs a, b (words), outputs o (words); decided by lib/intx.py */
#include "vh.h"
#ifdef RAW        /* only the back end: mp_mul / rdc_mont / asm entry points */
#include "config.h"
#else
#include "poik_env.h"
#endif
#define N ((SZ + 63) / 64)

static uint64_t a[2*N+4], b[2*N+4], o[2*N+4];
/* primitives of the portable code, proved equal to these for all words in P02 (h_lt, h_dxd) */
unsigned int stub_is_digit_lessthan_ct(uint64_t x, uint64_t y) { return x < y; }
unsigned int stub_is_digit_zero_ct(uint64_t x) { return x == 0; }
unsigned int stub_is_digit_nonzero_ct(uint64_t x) { return x != 0; }
void stub_digit_x_digit(const uint64_t x, const uint64_t y, uint64_t *c) { unsigned __int128 t = (unsigned __int128) x * y; c[0] = (uint64_t) t; c[1] = (uint64_t) (t >> 64); }
#ifndef IA
#define IA N
#endif
#ifndef IB
#define IB N
#endif
#ifndef IC
#define IC 0
#endif
#ifndef NO_
#define NO_ N
#endif
static void in(void)
{
    for (int i = 0; i < NO_ + 2; ++i) o[i] = 0x7766554433221100ull;
    vh_in("a", a, IA); if (IB) vh_in("b", b, IB); if (IC) vh_in("c", o, IC);
    a[IA] = b[IB] = 0x99;
}
static void out(void *r) { vh_out("o", r, NO_ + 1); vh_out("a", a, IA + 1); vh_out("b", b, IB + 1); REACH("end"); }
/* word product and reduction by contract (decided under P02): operands and results are named for the integer encoding */
static const char *NM[4][16] = {
  {"m0a","m1a","m2a","m3a","m4a","m5a","m6a","m7a","m8a","m9a","m10a","m11a","m12a","m13a","m14a","m15a"},
  {"m0b","m1b","m2b","m3b","m4b","m5b","m6b","m7b","m8b","m9b","m10b","m11b","m12b","m13b","m14b","m15b"},
  {"m0o","m1o","m2o","m3o","m4o","m5o","m6o","m7o","m8o","m9o","m10o","m11o","m12o","m13o","m14o","m15o"},
  {"m0k","m1k","m2k","m3k","m4k","m5k","m6k","m7k","m8k","m9k","m10k","m11k","m12k","m13k","m14k","m15k"}};
static int nm;
void stub_mp_mul(const uint64_t *x, const uint64_t *y, uint64_t *r, const unsigned int n) { PROVE(n == N, "product of field-size operands"); vh_out(NM[0][nm], (void *) x, N); vh_out(NM[1][nm], (void *) y, N); vh_in(NM[2][nm], r, 2*N); ++nm; }
void stub_rdc_mont(uint64_t *x, uint64_t *r) { vh_out(NM[0][nm], x, 2*N); vh_in(NM[2][nm], r, N); ++nm; }
typedef digit_t (*E2)[NWORDS_FIELD];
#define F2(x) ((E2) (x))
void h_call(void) { in(); CALL; out(RES); }
