/* linear field layer: all operand values, full width, with and without aliasing */
#include "vh.h"
#include "poik_env.h"
#define N NWORDS_FIELD
typedef unsigned __int128 u128;
static digit_t a[2*N+1], b[2*N+1], c[2*N+1], a0[2*N], b0[2*N], P[N+1], P2[N+1];
static digit_t add(const digit_t *x, const digit_t *y, digit_t *z, unsigned n) { u128 t = 0; for (unsigned i = 0; i < n; ++i) { t += (u128) x[i] + y[i]; z[i] = (digit_t) t; t >>= 64; } return (digit_t) t; }
static digit_t sub(const digit_t *x, const digit_t *y, digit_t *z, unsigned n) { digit_t w = 0; for (unsigned i = 0; i < n; ++i) { u128 t = (u128) x[i] - y[i] - w; z[i] = (digit_t) t; w = (digit_t) (t >> 127); } return w; }
static bool eq(const digit_t *x, const digit_t *y, unsigned n) { digit_t d = 0; for (unsigned i = 0; i < n; ++i) d |= x[i] ^ y[i]; return d == 0; }
static bool lt(const digit_t *x, const digit_t *y, unsigned n) { digit_t t[2*N+1]; return sub(x, y, t, n) == 1; }
static void prime(void) { for (unsigned i = 0; i < N; ++i) P[i] = ((const digit_t *) PRIME)[i]; add(P, P, P2, N + 1); }
static void nd(digit_t *x, digit_t *s, unsigned n) { for (unsigned i = 0; i < n; ++i) s[i] = x[i] = nd64(); }
#define GUARD 0x5a5a5a5a5a5a5a5aull
#if ALIAS == 1
#define OUT a
#define SECOND b
#elif ALIAS == 2
#define OUT b
#define SECOND b
#elif ALIAS == 3       /* both operands the same array */
#define OUT a
#define SECOND a
#else
#define OUT c
#define SECOND b
#endif
static void two(void) { prime(); nd(a, a0, N); if (SECOND == a) { for (unsigned i = 0; i < N; ++i) b0[i] = a0[i]; } else nd(b, b0, N); a[N] = b[N] = c[N] = GUARD; }
static void guard(void) { PROVE(a[N] == GUARD && b[N] == GUARD && c[N] == GUARD, "nothing outside the result is written");
    if (OUT != a) PROVE(eq(a, a0, N), "operands are unchanged"); if (OUT != b && SECOND == b) PROVE(eq(b, b0, N), "operands are unchanged"); }
/* OUT == v - k*p for some k in [lo,hi], v given as N+1 words (two's complement) */
static bool cong(const digit_t *x, const digit_t *v, int lo, int hi)
{
    digit_t t[N+1]; bool r = false; unsigned i; int k;
    for (i = 0; i <= N; ++i) t[i] = v[i];
    for (k = 0; k < lo; ++k) sub(t, P, t, N + 1);
    for (k = 0; k > lo; --k) add(t, P, t, N + 1);
    for (k = lo; k <= hi; ++k) { r |= eq(x, t, N) & (t[N] == 0); sub(t, P, t, N + 1); }
    return r;
}
void h_fpadd(void)
{
    two(); ASSUME(lt(a0, P2, N)); ASSUME(lt(b0, P2, N));
    digit_t s[N+1]; s[N] = add(a0, b0, s, N);
    fpadd(a, SECOND, OUT);
    PROVE(lt(OUT, P2, N), "sum is in [0,2p)"); PROVE(cong(OUT, s, 0, 3), "sum is the right residue"); guard(); REACH("end");
}
void h_fpsub(void)
{
    two(); ASSUME(lt(a0, P2, N)); ASSUME(lt(b0, P2, N));
    digit_t s[N+1]; s[N] = -sub(a0, b0, s, N);
    fpsub(a, SECOND, OUT);
    PROVE(lt(OUT, P2, N), "difference is in [0,2p)"); PROVE(cong(OUT, s, -2, 1), "difference is the right residue"); guard(); REACH("end");
}
void h_fpneg(void)
{
    prime(); nd(a, a0, N); a[N] = GUARD; ASSUME(lt(a0, P2, N));
    fpneg(a);
    digit_t s[N+1], z[N] = {0}; s[N] = -sub(z, a0, s, N);
    PROVE(!lt(P2, a, N), "negative is in [0,2p]"); PROVE(cong(a, s, -2, 1), "negative is the right residue"); PROVE(a[N] == GUARD, "nothing outside the result is written"); REACH("end");
}
void h_fpdiv2(void)
{
    prime(); nd(a, a0, N); a[N] = c[N] = GUARD; ASSUME(lt(a0, P2, N));
    fpdiv2(a, OUT);
    digit_t d[N+1], s[N+1]; d[N] = add(OUT, OUT, d, N); s[N] = 0; for (unsigned i = 0; i < N; ++i) s[i] = a0[i];
    PROVE(lt(OUT, P2, N), "half is in [0,2p)");
    digit_t t[N+1]; bool r = false; for (int k = 0; k < 4; ++k) { r |= eq(d, s, N + 1); add(s, P, t, N + 1); s[N] = t[N]; for (unsigned i = 0; i < N; ++i) s[i] = t[i]; }
    PROVE(r, "twice the half is the operand"); PROVE(a[N] == GUARD && c[N] == GUARD, "nothing outside the result is written"); if (OUT != a) PROVE(eq(a, a0, N), "operand unchanged"); REACH("end");
}
void h_fpcorrection(void)
{
    prime(); nd(a, a0, N); a[N] = GUARD; ASSUME(lt(a0, P2, N));
    fpcorrection(a);
    digit_t s[N+1]; s[N] = 0; for (unsigned i = 0; i < N; ++i) s[i] = a0[i];
    PROVE(lt(a, P, N), "corrected value is in [0,p)"); PROVE(cong(a, s, 0, 1), "corrected value is the same residue"); PROVE(a[N] == GUARD, "nothing outside the result is written"); REACH("end");
}
static void subk(digit_t *s, unsigned k) { sub(a0, b0, s, N); while (k--) add(s, P, s, N); }
void h_mp_sub_p2(void) { two(); mp_sub_p2(a, SECOND, OUT); digit_t s[N]; subk(s, 2); PROVE(eq(OUT, s, N), "a-b+2p"); guard(); REACH("end"); }
void h_mp_sub_p4(void) { two(); mp_sub_p4(a, SECOND, OUT); digit_t s[N]; subk(s, 4); PROVE(eq(OUT, s, N), "a-b+4p"); guard(); REACH("end"); }
void h_mp_addfast(void) { two(); mp_addfast(a, SECOND, OUT); digit_t s[N]; add(a0, b0, s, N); PROVE(eq(OUT, s, N), "a+b"); guard(); REACH("end"); }
#ifdef LEN
void h_mp_add(void)
{
    nd(a, a0, LEN); nd(b, b0, LEN); c[LEN] = a[LEN] = GUARD;
    digit_t s[2*N], k = add(a0, b0, s, LEN);
    PROVE(mp_add(a, b, OUT, LEN) == k, "carry out"); PROVE(eq(OUT, s, LEN), "sum"); PROVE(OUT[LEN] == GUARD, "nothing outside the result is written"); REACH("end");
}
void h_mp_sub(void)
{
    nd(a, a0, LEN); nd(b, b0, LEN); c[LEN] = a[LEN] = GUARD;
    digit_t s[2*N], k = sub(a0, b0, s, LEN);
    PROVE(mp_sub(a, b, OUT, LEN) == k, "borrow out"); PROVE(eq(OUT, s, LEN), "difference"); PROVE(OUT[LEN] == GUARD, "nothing outside the result is written"); REACH("end");
}
#endif
void h_subadd(void)
{
    prime(); nd(a, a0, 2*N); nd(b, b0, 2*N); c[2*N] = a[2*N] = GUARD;
    digit_t s[2*N], k = sub(a0, b0, s, 2*N), m[N];
    for (unsigned i = 0; i < N; ++i) m[i] = P[i] & -k;
    add(s + N, m, s + N, N);
    mp_subaddfast(a, b, OUT);
    PROVE(eq(OUT, s, 2*N), "a-b, plus p*2^(field words) if negative"); PROVE(OUT[2*N] == GUARD, "nothing outside the result is written"); if (OUT != a) PROVE(eq(a, a0, 2*N), "operand unchanged"); PROVE(eq(b, b0, 2*N), "operand unchanged"); REACH("end");
}
void h_dblsub(void)
{
    static digit_t d[2*N+1], d0[2*N];
    nd(a, a0, 2*N); nd(b, b0, 2*N); nd(d, d0, 2*N); d[2*N] = GUARD;
    digit_t s[2*N]; sub(d0, a0, s, 2*N); sub(s, b0, s, 2*N);
    mp_dblsubfast(a, b, d);
    PROVE(eq(d, s, 2*N), "c-a-b"); PROVE(d[2*N] == GUARD && eq(a, a0, 2*N) && eq(b, b0, 2*N), "operands unchanged, nothing outside written"); REACH("end");
}
void h_shift(void)
{
    for (unsigned n = 1; n <= 2*N; ++n) {
        nd(a, a0, n); a[n] = GUARD; bool ok = true;
        mp_shiftr1(a, n);
        for (unsigned i = 0; i < n; ++i) ok &= a[i] == (a0[i] >> 1 | (i + 1 < n ? a0[i+1] << 63 : 0));
        PROVE(ok && a[n] == GUARD, "shift right by one");
        nd(a, a0, n); a[n] = GUARD; ok = true;
        mp_shiftl1(a, n);
        for (unsigned i = 0; i < n; ++i) ok &= a[i] == (a0[i] << 1 | (i ? a0[i-1] >> 63 : 0));
        PROVE(ok && a[n] == GUARD, "shift left by one");
    }
    REACH("end");
}
