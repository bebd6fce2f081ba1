/* coordinate-wise GF(p^2) operations: each coordinate of the result is the field operation (decided under P01/P02) on the same
   coordinates of the operands, for every value and aliasing; nothing else is written */
#include "vh.h"
#include "poik_env.h"
#define N NWORDS_FIELD
static f2elm_t a, b, c, a0, b0, e;
static bool eq(const f2elm_t x, const f2elm_t y) { digit_t d = 0; for (int k = 0; k < 2; ++k) for (unsigned i = 0; i < N; ++i) d |= x[k][i] ^ y[k][i]; return d == 0; }
static void in(void) { for (int k = 0; k < 2; ++k) for (unsigned i = 0; i < N; ++i) { a[k][i] = a0[k][i] = nd64(); b[k][i] = b0[k][i] = nd64(); c[k][i] = 0x5a; } }
#define TWO(F2_, F1, msg) do { \
    in(); F1(a0[0], b0[0], e[0]); F1(a0[1], b0[1], e[1]); F2_(a, b, c); PROVE(eq(c, e), msg); PROVE(eq(a, a0) && eq(b, b0), "operands unchanged: " msg); \
    F2_(a, b, a); PROVE(eq(a, e), msg " (output is first)"); in(); F1(a0[0], b0[0], e[0]); F1(a0[1], b0[1], e[1]); F2_(a, b, b); PROVE(eq(b, e), msg " (output is second)"); \
    in(); F1(a0[0], a0[0], e[0]); F1(a0[1], a0[1], e[1]); F2_(a, a, a); PROVE(eq(a, e), msg " (all the same)"); } while (0)
#define COPY1(x, y) do { for (unsigned i_ = 0; i_ < N; ++i_) (y)[i_] = (x)[i_]; } while (0)
void h_lin(void)
{
    TWO(fp2add, fpadd, "fp2add"); TWO(fp2sub, fpsub, "fp2sub"); TWO(mp2_add, mp_addfast, "mp2_add"); TWO(mp2_sub_p2, mp_sub_p2, "mp2_sub_p2");
    in(); COPY1(a0[0], e[0]); COPY1(a0[1], e[1]); fpneg(e[0]); fpneg(e[1]); fp2neg(a); PROVE(eq(a, e), "fp2neg");
    in(); fpdiv2(a0[0], e[0]); fpdiv2(a0[1], e[1]); fp2div2(a, c); PROVE(eq(c, e) && eq(a, a0), "fp2div2"); fp2div2(a, a); PROVE(eq(a, e), "fp2div2 in place");
    in(); COPY1(a0[0], e[0]); COPY1(a0[1], e[1]); fpcorrection(e[0]); fpcorrection(e[1]); fp2correction(a); PROVE(eq(a, e), "fp2correction");
    in(); fp2copy(a, c); PROVE(eq(c, a0) && eq(a, a0), "fp2copy"); fp2zero(c); memset(e, 0, sizeof e); PROVE(eq(c, e), "fp2zero");
    REACH("end");
}
