/* Abstract orders: a point carries (exponent of its 2-part, of its 3-part, "other" part, curve it lies on, subgroup labels) in the digits of Z;
 * curves carry a version number.  Real: Isogeny_A/B, random_point_with_order, Random_Point_AB, Random_Isogeny_Chain_A/B, Check_Curve, proves_order.
 * Stubbed: xDBL(e), xTPL(e), get_/eval_N_isog, change_model, eval_iso, coefficient conversions, fp2div, random_point, proj_equal. */
#include "vh.h"
#ifndef LL
#define LL 2
#endif
#ifndef NS
#define NS 2
#endif
#include "poik_env.h"
#ifdef TOY
#undef OALICE_BITS
#undef OBOB_EXPON
#define OALICE_BITS TOY_A
#define OBOB_EXPON TOY_B
#endif
#include "poik_src.h"
static unsigned bad;
#define BAD(n) (bad |= 1u << (n))
#define MG 0x5ec0000000000000ull
#define MC 0x5ec1000000000000ull
static digit_t *Zw(const point_proj *P, int k) { return (digit_t *) &P->Z[0][k]; }
enum { ID, R2, R3, CUR, OTH, SUB };
static digit_t g(const point_proj *P, int k) { return *Zw(P, k) & (k == ID ? 0xff : ~(digit_t) 0); }
static digit_t above00;
static void setp(point_proj *P, digit_t id, digit_t r2, digit_t r3, digit_t cur, digit_t oth, digit_t sub)
{
    digit_t m = 0 - (digit_t) ((r2 | r3 | oth) != 0);
    digit_t x0 = (digit_t) ((id == 1) & (r2 == 1) & (r3 == 0) & (oth == 0) & (cur == 0) & above00);
    for (int k = 0; k < NWORDS_FIELD; ++k) P->X[0][k] = P->X[1][k] = P->Z[0][k] = P->Z[1][k] = 0;
    P->X[0][0] = !x0;
    *Zw(P, ID) = (MG | id) & m; *Zw(P, R2) = r2 & m; *Zw(P, R3) = r3 & m; *Zw(P, CUR) = cur & m; *Zw(P, OTH) = oth & m; *Zw(P, SUB) = sub & m;
}
static void setm(felm_t *x, digit_t v) { for (int k = 0; k < NWORDS_FIELD; ++k) x[0][k] = x[1][k] = 0; x[0][0] = v; }
/* curve markers: coefficients of a curve carry MC|version|model<<16; unmarked coefficients are ignored */
static void oncurve(const point_proj *P, const f2elm_t A) { digit_t z = *Zw(P, ID); if (A) bad |= (unsigned) (((z >> 48) == (MG >> 48)) & ((A[0][0] >> 48) == (MC >> 48)) & ((A[0][0] & 0xffffffff) != g(P, CUR))); }
static digit_t sub0(digit_t a, digit_t n) { digit_t m = 0 - (digit_t) (a > n); return (a - n) & m; }
static void mul(const point_proj *P, point_proj *Q, digit_t e2, digit_t e3) { digit_t a = g(P, ID), b = g(P, R2), c = g(P, R3), d = g(P, CUR), e = g(P, OTH), f = g(P, SUB); setp(Q, a, sub0(b, e2), sub0(c, e3), d, e, f); }
void stub_xDBL(const point_proj_t P, point_proj_t Q, const f2elm_t A24plus, const f2elm_t C24) { oncurve(P, A24plus); mul(P, Q, 1, 0); }
void stub_xDBLe(const point_proj_t P, point_proj_t Q, const f2elm_t A24plus, const f2elm_t C24, const int e) { oncurve(P, A24plus); mul(P, Q, (digit_t) e, 0); }
void stub_xTPL(const point_proj_t P, point_proj_t Q, const f2elm_t A24minus, const f2elm_t A24plus) { oncurve(P, A24plus); mul(P, Q, 0, 1); }
void stub_xTPLe(const point_proj_t P, point_proj_t Q, const f2elm_t A24minus, const f2elm_t A24plus, const int e) { oncurve(P, A24plus); mul(P, Q, 0, (digit_t) e); }
void stub_AC_to_AAC24(curve_proj const *E, f2elm_t A24plus, f2elm_t A24minus, f2elm_t C24) { digit_t v = E->A[0][0]; if (A24plus) setm(A24plus, v); if (A24minus) setm(A24minus, v); if (C24) setm(C24, v); }
void stub_AC24_to_AC(const f2elm_t A24plus, const f2elm_t C24, curve_proj *E) { if (A24plus[0][0] != C24[0][0]) BAD(1); setm(E->A, A24plus[0][0]); setm(E->C, 1); }
void stub_AA24_to_AC(const f2elm_t A24minus, const f2elm_t A24plus, curve_proj *E) { if (A24plus[0][0] != A24minus[0][0]) BAD(1); setm(E->A, A24plus[0][0]); setm(E->C, 1); }
static unsigned deg2, deg3, steps; static int refusal; static bool want;
/* one elementary step: R must have exact order l^k and lie on the curve given by the coefficients */
static void step(const point_proj *R, felm_t *A, felm_t *B, int l, digit_t k)
{
    if (refusal) { PROVE(want, "an isogeny is computed only for kernels of exact full order"); REACH("accepted"); ASSUME(0); }
    digit_t r = FORK(g(R, l == 2 ? R2 : R3)), o = FORK(g(R, l == 2 ? R3 : R2) | g(R, OTH));
    if (r != k || o || g(R, ID) != 1) BAD(2);
    if (l == 2) { digit_t a = FORK(above00); if (a && !(g(R, CUR) >> 16)) BAD(3); deg2 += (unsigned) k; } else deg3 += (unsigned) k;
    oncurve(R, A); oncurve(R, B);
    digit_t v = MC | (FORK(g(R, CUR)) + 1);
    setm(A, v); setm(B, v); ++steps;
}
static void push(point_proj *P, digit_t v, int l, digit_t k)      /* v: version of the step's domain */
{
    if ((*Zw(P, ID) >> 48) != (MG >> 48)) { BAD(4); return; }
    if (FORK(g(P, CUR)) != v) BAD(5);
    digit_t a = g(P, R2), b = g(P, R3), same = g(P, ID) == 1 || g(P, SUB) == 99;
    digit_t n = same ? k : 0;
    setp(P, g(P, ID), l == 2 ? FORK(sub0(a, n)) : a, l == 3 ? FORK(sub0(b, n)) : b, v + 1, g(P, OTH), g(P, SUB));
}
void stub_get_4_isog(const point_proj_t P, f2elm_t A24plus, f2elm_t C24, f2elm_t *coeff) { digit_t v = FORK(g(P, CUR)); step(P, A24plus, C24, 2, 2); for (int i = 0; i < 3; ++i) setm(coeff[i], MC | v | 4ull << 40); }
void stub_eval_4_isog(point_proj_t P, f2elm_t *coeff) { if ((coeff[0][0][0] >> 40) != (MC >> 40 | 4)) BAD(6); push(P, coeff[0][0][0] & 0xffffffff, 2, 2); }
void stub_get_3_isog(const point_proj_t P, f2elm_t A24minus, f2elm_t A24plus, f2elm_t *coeff) { digit_t v = FORK(g(P, CUR)); step(P, A24minus, A24plus, 3, 1); for (int i = 0; i < 2; ++i) setm(coeff[i], MC | v | 3ull << 40); }
void stub_eval_3_isog(point_proj_t P, f2elm_t *coeff) { if ((coeff[0][0][0] >> 40) != (MC >> 40 | 3)) BAD(6); push(P, coeff[0][0][0] & 0xffffffff, 3, 1); }
void stub_get_2_isog(const point_proj_t P, f2elm_t A24plus, f2elm_t C24) { step(P, A24plus, C24, 2, 1); }
void stub_eval_2_isog(point_proj_t P, point_proj_t Q) { if (g(Q, ID) != 1 || g(Q, R2) != 1) BAD(7); push(P, FORK(g(Q, CUR)), 2, 1); }
void stub_change_model(curve_proj const *E, mont_iso *iso, mont_iso *identity)
{
    digit_t v = E->A[0][0];
    setm(iso->B, v | 1ull << 16); setm(iso->r, 1); setm(iso->u2, 1);
    if (identity) { setm(identity->B, v); setm(identity->r, 0); setm(identity->u2, 1); }
}
void stub_eval_iso(mont_iso const *iso, point_proj const *P, point_proj *Q)
{
    digit_t d = g(P, CUR); bad |= (unsigned) ((d >> 16) != 0) << 8;
    setp(Q, g(P, ID), g(P, R2), g(P, R3), d | (iso->B[0][0] & 0x10000), g(P, OTH), g(P, SUB));
}
void stub_fp2div(const f2elm_t X, const f2elm_t Z, f2elm_t x) { digit_t v = X[0][0]; setm(x, v); }
uint8_t stub_proj_equal(const f2elm_t X1, const f2elm_t Z1, const f2elm_t X2, const f2elm_t Z2)
{
    point_proj const *P = (void const *) X1, *Q = (void const *) X2;
    digit_t z1 = 0, z2 = 0; for (int k = 0; k < 6; ++k) z1 |= Z1[0][k], z2 |= Z2[0][k];
    unsigned any = ((z1 | X1[0][0]) == 0) | ((z2 | X2[0][0]) == 0);                     /* (0:0) compares equal to anything */
    unsigned both0 = (z1 == 0) & (z2 == 0), one0 = (z1 == 0) ^ (z2 == 0);
    unsigned same = (g(P, R2) == g(Q, R2)) & (g(P, R3) == g(Q, R3)) & (g(P, OTH) == 0) & (g(Q, OTH) == 0);
    unsigned t2 = (g(P, R2) == 1) & (g(P, R3) == 0) & ((g(P, SUB) & 0xff) == (g(Q, SUB) & 0xff));
    unsigned t3 = (g(P, R3) == 1) & (g(P, R2) == 0) & ((g(P, SUB) >> 8 & 0xff) == (g(Q, SUB) >> 8 & 0xff));
    return (uint8_t) (0 - (any | both0 | (!one0 & same & (t2 | t3))));
}
void fpsub(const digit_t *a, const digit_t *b, digit_t *c) { for (int k = 0; k < NWORDS_FIELD; ++k) c[k] = a[k] ^ b[k]; }
void fpadd(const digit_t *a, const digit_t *b, digit_t *c) { for (int k = 0; k < NWORDS_FIELD; ++k) c[k] = (a[k] + b[k]) & 0xffff; }
void fpcorrection(digit_t *a) { }
static unsigned nrp; static point_proj samp[4]; static unsigned maxrp = 3, failed; static digit_t rp_cur;
void stub_fail(void) { ++failed; }

/* ---------- walks ---------- */
static curve_proj E, EE; static point_proj K, Q, bk;
static unsigned nrwo;
void stub_random_point_with_order(const f2elm_t A, unsigned l, point_proj *P, unsigned *e, point_proj *T)
{
    digit_t same = FORK(nd8() & 1); ASSUME(nrwo < 2 || !same); ++nrwo;
    digit_t cur = A[0][0] & 0xffffffff; if ((A[0][0] >> 48) != (MC >> 48) || l != 3) BAD(9);
    setp(P, 5, 0, 3, cur, 0, 0); *e = 3;
    setp(T, 6, 0, 1, cur, 0, same ? 99 : 98);
}
uint8_t stub_proj_equal_w(const f2elm_t X1, const f2elm_t Z1, const f2elm_t X2, const f2elm_t Z2)
{
    point_proj const *P = (void const *) X1, *R = (void const *) X2;
    if (g(P, ID) == 6 && g(R, ID) == 1) { if (FORK(g(R, R3)) != 1 || FORK(g(R, CUR)) != g(P, CUR)) BAD(10); return g(P, SUB) == 99 ? 0xff : 0; }
    if (g(P, ID) == 1 && g(R, ID) == 6) { if (FORK(g(P, R3)) != 1 || FORK(g(P, CUR)) != g(R, CUR)) BAD(10); return g(R, SUB) == 99 ? 0xff : 0; }
    BAD(11); return 0;
}
static void walk(int l)
{
    digit_t full = l == 2 ? OALICE_BITS : OBOB_EXPON; unsigned opt = (unsigned) FORK(nd8() & 7);
    above00 = FORK(nd8() & 1);
    setm(E.A, MC); setm(E.C, 1);
    setp(&K, 1, l == 2 ? full : 0, l == 3 ? full : 0, 0, 0, 0); setp(&Q, 2, 7, 7, 0, 1, 0);
    bool r = (l == 2 ? Isogeny_A : Isogeny_B)(&E, &K, opt & 1 ? &EE : NULL, opt & 2 ? &Q : NULL, opt & 4 ? &bk : NULL);
    PROVE(r, "a kernel of full order is accepted");
    PROVE(!bad, "every step uses a point of exactly the step's order on the current curve and points are carried through every step");
    PROVE((l == 2 ? deg2 : deg3) == full && !(l == 2 ? deg3 : deg2), "total degree");
    digit_t last = steps;
    if (opt & 1) PROVE((EE.A[0][0] & 0xffff) == last && (EE.A[0][0] >> 48) == (MC >> 48), "codomain is the last curve");
    if (opt & 2) PROVE((g(&Q, CUR) & 0xffff) == last && g(&Q, ID) == 2 && g(&Q, OTH) == 1, "the auxiliary point went through all steps");
    if (opt & 4) {
        if (l == 2) { digit_t x = 0, z = 0; for (int k = 0; k < NWORDS_FIELD; ++k) x |= bk.X[0][k] | bk.X[1][k], z |= bk.Z[0][k] | bk.Z[1][k]; PROVE(x == 0 && z != 0, "backtracking point is (0,0)"); }
        else PROVE(g(&bk, ID) == 6 && g(&bk, R3) == 1 && (g(&bk, CUR) & 0xffff) == last, "backtracking point is the image of a 3-torsion point outside the kernel");
    }
    REACH("walked");
}
static void refuse(int l)
{
    digit_t r2 = nd64(), r3 = nd64(), oth = nd8() & 1, full = l == 2 ? OALICE_BITS : OBOB_EXPON;
    above00 = nd8() & 1; refusal = 1;
    ASSUME((l == 2 ? r2 : r3) <= 2 * full); ASSUME((l == 2 ? r3 : r2) <= 2 * full);
    want = ((l == 2 ? r2 : r3) == full) & ((l == 2 ? r3 : r2) == 0) & !oth;
    setm(E.A, MC); setm(E.C, 1);
    setp(&K, 1, r2, r3, 0, oth, 0); setp(&Q, 2, 7, 7, 0, 1, 0);
    bool r = (l == 2 ? Isogeny_A : Isogeny_B)(&E, &K, &EE, &Q, &bk);
    PROVE(!r && !want, "an isogeny is refused only for kernels that do not have exact full order");
    REACH("refused");
}
void h_refuse_A(void) { refuse(2); }
void h_refuse_B(void) { refuse(3); }
void h_walk_A(void) { walk(2); }
void h_walk_B(void) { walk(3); }

/* ---------- samplers (toy exponents) ---------- */
void stub_random_point(const f2elm_t A, point_proj *P)
{
    ASSUME(nrp < maxrp);
    digit_t a = nd8(), b = nd8(), o = nd8() & 1, s = nd8() & 3, t = nd8() & 3;
    ASSUME((a <= OALICE_BITS + 1) & (b <= OBOB_EXPON + 1));
    setp(P, 20 + nrp, a, b, rp_cur, o, s | t << 8);
    /* keep the sample even if it is the point at infinity */
    *Zw(&samp[nrp], R2) = a; *Zw(&samp[nrp], R3) = b; *Zw(&samp[nrp], OTH) = o; *Zw(&samp[nrp], SUB) = s | t << 8;
    ++nrp;
}
void stub_random_point_ok(const f2elm_t A, point_proj *P)        /* on a supersingular curve: annihilated by p+1 */
{
    stub_random_point(A, P);
    ASSUME((g(P, R2) <= OALICE_BITS) & (g(P, R3) <= OBOB_EXPON) & !g(P, OTH));
}
void stub_random_point_full(const f2elm_t A, point_proj *P)      /* the first two samples: full order, independent */
{
    unsigned n = nrp;
    stub_random_point_ok(A, P);
    if (n < 2) ASSUME((g(P, R2) == OALICE_BITS) & (g(P, R3) == OBOB_EXPON));
    if (n == 1) ASSUME(((g(P, SUB) & 0xff) != (g(&samp[0], SUB) & 0xff)) & ((g(P, SUB) >> 8) != (g(&samp[0], SUB) >> 8)));
}
void h_rpwo(void)
{
    f2elm_t A; setm(A, 0); point_proj P, T; unsigned e = 77, l = LL;
    random_point_with_order(A, l, &P, &e, &T);
    digit_t k = l == 2 ? g(&P, R2) : g(&P, R3), o = l == 2 ? g(&P, R3) : g(&P, R2);
    PROVE(k >= 1 && o == 0, "a non-trivial point of l-power order");
    PROVE(k == e, "the reported exponent is the exact one");
    PROVE((l == 2 ? g(&T, R2) : g(&T, R3)) == 1 && g(&T, ID) == g(&P, ID), "second output is the point of order l below it");
    REACH("sampled");
}
static unsigned nwo; static unsigned es[4], eq[4];
void stub_rwo(const f2elm_t A, unsigned l, point_proj *P, unsigned *e, point_proj *T)
{
    ASSUME(nwo < 3); unsigned x = (unsigned) (nd64() & 0xfff), s = nd8() & 1; ASSUME(x >= 1 && x <= (l == 2 ? OALICE_BITS : OBOB_EXPON));
    es[nwo] = x; eq[nwo] = s;
    setp(P, 30 + nwo, l == 2 ? x : 0, l == 3 ? x : 0, 0, 0, s); setp(T, 30 + nwo, l == 2, l == 3, 0, 0, s); *e = x; ++nwo;
}
uint8_t stub_eq_avoid(const f2elm_t X1, const f2elm_t Z1, const f2elm_t X2, const f2elm_t Z2)
{
    point_proj const *T = (void const *) (g((void const *) X1, ID) == 9 ? X2 : X1);
    return (uint8_t) (0 - ((g(T, SUB) != 0) & (g(T, LL == 2 ? R2 : R3) == 1)));
}
void h_rpab(void)
{
    curve_proj C; setm(C.A, MC); setm(C.C, 1); point_proj P, av; setp(&av, 9, LL == 2, LL == 3, 0, 0, 0); unsigned use = (unsigned) FORK(nd8() & 1);
    if (LL == 2) Random_Point_A(&C, &P, use ? &av : NULL); else Random_Point_B(&C, &P, use ? &av : NULL);
    unsigned i = nwo - 1;
    PROVE(nwo >= 1 && g(&P, ID) == 30 + i, "returns the last sampled point");
    PROVE(es[i] == (LL == 2 ? OALICE_BITS : OBOB_EXPON), "full order");
    PROVE(!(use && eq[i]), "not above the point to avoid");
    REACH("sampled");
    if (i == 2) REACH("resampled");
}
/* ---------- chains ---------- */
#define NST (LL == 2 ? POIK_WIDTH : POIK_HEIGHT)
static unsigned npt, nis;
void stub_Random_Point_AB(curve_proj const *C, unsigned l, point_proj *P, point_proj const *avoid)
{
    if (l != LL) BAD(12);
    if (C->A[0][0] != (MC | npt)) BAD(13);
    if (npt) {
        if (!avoid) BAD(14);
        else if (l == 2) { digit_t x = 0, z = 0; for (int k = 0; k < NWORDS_FIELD; ++k) x |= avoid->X[0][k] | avoid->X[1][k], z |= avoid->Z[0][k] | avoid->Z[1][k]; if (x || !z) BAD(15); }
        else if (g(avoid, ID) != 8 || g(avoid, CUR) != npt) BAD(15);
    }
    setp(P, 40 + npt, LL == 2 ? 9 : 0, LL == 3 ? 9 : 0, npt, 0, 0); ++npt;
}
static bool st_isog(int l, curve_proj const *C, point_proj const *P, curve_proj *D, point_proj *T, point_proj *back)
{
    if (C->A[0][0] != (MC | nis) || g(P, ID) != 40 + nis || npt != nis + 1 || l != LL) BAD(16);
    ++nis;
    if (D) { setm(D->A, MC | nis); setm(D->C, 1); }
    if (back) { if (l == 2) { setm(back->X, 0); setm(back->Z, 1); } else setp(back, 8, 0, 1, nis, 0, 0); }
    return true;
}
bool stub_Isogeny_A(curve_proj const *C, point_proj const *P, curve_proj *D, point_proj *T, point_proj *back) { return st_isog(2, C, P, D, T, back); }
bool stub_Isogeny_B(curve_proj const *C, point_proj const *P, curve_proj *D, point_proj *T, point_proj *back) { return st_isog(3, C, P, D, T, back); }
void h_chain(void)
{
    static chain_A ca; static chain_B cb; setm(E.A, MC); setm(E.C, nd64());
    if (LL == 2) Random_Isogeny_Chain_A(&E, &ca); else Random_Isogeny_Chain_B(&E, &cb);
    PROVE(!bad, "each step starts on the current curve with a fresh point avoiding the way back");
    PROVE(nis == NST && npt == NST, "number of steps");
    for (unsigned i = 0; i <= NST; ++i) PROVE((LL == 2 ? ca.E[i] : cb.E[i]).A[0][0] == (MC | i), "curves recorded in order");
    for (unsigned i = 0; i < NST; ++i) PROVE(g(LL == 2 ? &ca.P[i] : &cb.P[i], ID) == 40 + i, "kernels recorded in order");
    PROVE((LL == 2 ? ca.E[0] : cb.E[0]).C[0][0] == E.C[0][0], "starts at the given curve");
    REACH("chain");
}
/* ---------- curve validation ---------- */
static bool enough(unsigned a, unsigned b);
#ifdef BOUNDS      /* SOUND[b]: least a with 2^a*3^b > 4p;  FULL[b]: least a with 2^a*3^b >= 16p (exact integers, from the parameter set's p) */
static const uint16_t SOUND[] = { BOUNDS }, FULL[] = { BOUNDS16 };
#define NB (sizeof SOUND / sizeof *SOUND)
static bool enough(unsigned a, unsigned b) { unsigned r = 0; for (unsigned i = 0; i < NB; ++i) r |= (b == i) & (a >= SOUND[i]); return r; }
static bool plenty(unsigned a, unsigned b) { unsigned r = 0; for (unsigned i = 0; i < NB; ++i) r |= (b == i) & (a >= FULL[i]); return r; }
void h_threshold(void)
{
    unsigned long a = nd64(), b = nd64();
    ASSUME(a <= 2 * OALICE_BITS && b <= 2 * OBOB_EXPON);
    bool r = proves_order(a, b);
    PROVE(!r || enough(a, b), "accepted only if 2^a*3^b > 4p");
    PROVE(r || !plenty(a, b), "accepted whenever 2^a*3^b >= 16p");
    if (r) REACH("proves"); else REACH("does not prove");
}
static digit_t mx(digit_t a, digit_t b) { return a > b ? a : b; }
void h_check_curve(void)
{
    setm(E.A, MC); setm(E.C, 1); maxrp = NS;
    bool r = Check_Curve(&E);
    digit_t b2 = 0, b3 = 0, ok = 1;
    for (unsigned i = 0; i < nrp; ++i) {
        digit_t h = g(&samp[i], R2), k = g(&samp[i], R3), s = g(&samp[i], SUB);
        ok &= (h <= OALICE_BITS) & (k <= OBOB_EXPON) & !g(&samp[i], OTH);
        b2 = mx(b2, h); b3 = mx(b3, k);
        for (unsigned j = 0; j < i; ++j) {
            digit_t t = g(&samp[j], SUB), m2 = 0 - (digit_t) ((s & 0xff) != (t & 0xff)), m3 = 0 - (digit_t) ((s >> 8) != (t >> 8));
            b2 = mx(b2, h + (g(&samp[j], R2) & m2)); b3 = mx(b3, k + (g(&samp[j], R3) & m3));
        }
    }
    PROVE(!r || enough((unsigned) b2, (unsigned) b3), "accepted only with independent points whose orders force the group order");
    PROVE(!r || ok, "never accepted when a sampled point is not annihilated by p+1");
    PROVE(r || !ok, "rejected only because of a point that p+1 does not annihilate");
    if (r) REACH("accepted"); else REACH("rejected");
}
/* as soon as a bad point is seen */
void h_check_bad(void)
{
    setm(E.A, MC); setm(E.C, 1); maxrp = NS;
    bool r = Check_Curve(&E);
    digit_t seen = 0;
    for (unsigned i = 0; i + 1 < nrp; ++i) seen |= (g(&samp[i], R2) > OALICE_BITS) | (g(&samp[i], R3) > OBOB_EXPON) | g(&samp[i], OTH);
    PROVE(!seen, "rejected as soon as a sampled point is not annihilated");
    REACH("done");
}
void h_check_full(void)
{
    setm(E.A, MC); setm(E.C, 1); maxrp = 3;
    bool r = Check_Curve(&E);
    digit_t full = (nrp >= 2) & (g(&samp[0], R2) == OALICE_BITS) & (g(&samp[0], R3) == OBOB_EXPON) & (g(&samp[1], R2) == OALICE_BITS) & (g(&samp[1], R3) == OBOB_EXPON)
        & ((g(&samp[0], SUB) & 0xff) != (g(&samp[1], SUB) & 0xff)) & ((g(&samp[0], SUB) >> 8) != (g(&samp[1], SUB) >> 8));
    PROVE(!full || (r && nrp == 2), "two independent points of full order suffice");
    REACH("done");
}
#endif
