/* Verify() against a reference verifier, over an abstract universe of curves/points.
 * Real code: Verify, Worker_Unpack_Response, run_threads, Unpack_Response, Unpack_Chain_A/B, unpack_curve, unpack_point,
 * hash_hiding, enc_j, Challenge, sample_ternary, fp2_equal ... Stubbed: Isogeny_A/B, Check_Curve, canonical_model, eval_iso, j_inv,
 * fp2_decode/encode, Keccak, pthread_create/join (run to completion in turn), sysconf. */
#include "vh.h"
#include <pthread.h>
#include <unistd.h>
#include "poik_tu.h"

#define U 4
#define PROJ 0x77
static uint8_t tIsoA[U][U], tOkA[U][U], tPushA[U][U], tKillA[U][U];
static uint8_t tIsoB[U][U], tOkB[U][U], tPushB[U][U], tKillB[U][U];
static uint8_t tBackA[U][U], tBackB[U][U];
static uint8_t tCurveOk[U], tCanon[U], tMap[U][U], tJ[U];
static void fill(uint8_t *p, size_t n, uint8_t mask) { for (size_t k = 0; k < n; ++k) p[k] = nd8() & mask; }
#define FILL(t,m) fill((uint8_t *) t, sizeof(t), m)

static uint8_t bad_use;    // set when the code hands a stub something that is not a well-formed curve
static bool is_one(const felm_t *x) { uint8_t d = 0; for (int k = 0; k < NWORDS_FIELD; ++k) d |= (x[0][k] != ((digit_t *) Montgomery_one)[k]) | (x[1][k] != 0); return !d; }
static unsigned cid(curve_proj const *E)
{
    if (is_one(E->C) && E->A[0][0] < 16) return E->A[0][0] & (U-1);
    if (E->C[0][0] == PROJ && E->A[0][0] >= 16) return (E->A[0][0] - 16) & (U-1);
    bad_use = 1;
    return 0;
}
static unsigned pid(point_proj const *P) { return P->X[0][0] & (U-1); }
static bool pinf(point_proj const *P) { return P->Z[0][0] == 0 && P->Z[1][0] == 0; }
static void put(felm_t *x, digit_t v) { for (int k = 0; k < NWORDS_FIELD; ++k) x[0][k] = x[1][k] = 0; x[0][0] = v; }

bool stub_Isogeny_A(curve_proj const *E, point_proj const *K, curve_proj *EE, point_proj *Q, point_proj *back)
{
    unsigned e = cid(E), k = pid(K);
    if (!tOkA[e][k]) return false;
    if (Q) { if (pinf(Q) || tKillA[k][pid(Q)]) { put(Q->X, 1); put(Q->Z, 0); } else { put(Q->X, tPushA[k][pid(Q)]); put(Q->Z, PROJ); } }
    if (EE) { put(EE->A, 16 + tIsoA[e][k]); put(EE->C, PROJ); }
    if (back) { put(back->X, tBackA[e][k]); put(back->Z, PROJ); }
    return true;
}
bool stub_Isogeny_B(curve_proj const *E, point_proj const *K, curve_proj *EE, point_proj *Q, point_proj *back)
{
    unsigned e = cid(E), k = pid(K);
    if (!tOkB[e][k]) return false;
    if (Q) { if (pinf(Q) || tKillB[k][pid(Q)]) { put(Q->X, 1); put(Q->Z, 0); } else { put(Q->X, tPushB[k][pid(Q)]); put(Q->Z, PROJ); } }
    if (EE) { put(EE->A, 16 + tIsoB[e][k]); put(EE->C, PROJ); }
    if (back) { put(back->X, tBackB[e][k]); put(back->Z, PROJ); }
    return true;
}
bool stub_Check_Curve(curve_proj const *E) { return tCurveOk[cid(E)]; }
void stub_canonical_model(curve_proj const *E, mont_iso *iso)
{
    unsigned e = cid(E);
    put(iso->B, tCanon[e]); put(iso->r, e); put(iso->u2, PROJ);
}
void stub_eval_iso(mont_iso const *iso, point_proj const *P, point_proj *Q)
{
    unsigned e = iso->r[0][0] & (U-1), p = pid(P); bool inf = pinf(P);
    put(Q->X, tMap[e][p]); put(Q->Z, inf ? 0 : PROJ);
}
void stub_j_inv(const f2elm_t A, const f2elm_t C, f2elm_t j)
{
    curve_proj E; memcpy(E.A, A, sizeof(f2elm_t)); memcpy(E.C, C, sizeof(f2elm_t));
    put(j, tJ[cid(&E)]);
}
void stub_fp2_decode(const unsigned char *x, f2elm_t dec) { put(dec, x[0] & (U-1)); }
void stub_fp2_encode(const f2elm_t x, unsigned char *enc) { memset(enc, 0, FP2_ENCODED_BYTES); enc[0] = x[0][0]; }

/* field layer: only used for zero tests */
void fpsub(const digit_t *a, const digit_t *b, digit_t *c) { for (int k = 0; k < NWORDS_FIELD; ++k) c[k] = a[k] ^ b[k]; }
void fpcorrection(digit_t *a) { (void) a; }

/* hash: a fixed linear fold of (input, length), used by code and reference alike */
#define QLEN (1 + HIDE_BYTES + SIDH_BYTES)
static unsigned bad_hash, nabsorb;
static void fold(unsigned char *out, size_t outlen, const unsigned char *in, size_t inlen)
{
    for (size_t k = 0; k < outlen; ++k) out[k] = 0;
    for (size_t k = 0; k < inlen; ++k) { unsigned r = (k / outlen) % 8; unsigned char v = in[k]; out[k % outlen] ^= (unsigned char) ((v << r) | (v >> (8 - r))); }
}
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen)
{
    if (outlen != HASH_BYTES || inlen != QLEN) { bad_hash = 1; return; }
    fold(out, HASH_BYTES, in, QLEN);
}
static struct commitment absorbed_c;
static int8_t chall[POIK_REPS];
/* Challenge(): captured here, checked on its own by the challenge property */
void stub_Challenge(struct commitment const *comm, int8_t *out)
{
    absorbed_c = *comm; ++nabsorb;
    for (size_t k = 0; k < POIK_REPS; ++k) out[k] = chall[k];
}
int randombytes(unsigned char *p, unsigned long long n) { nd_bytes(p, n); return 0; }

int stub_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { *t = 0; f(x); return 0; }
int stub_pthread_join(pthread_t t, void **r) { return 0; }
long stub_sysconf(int x) { return 1; }   /* one worker; other schedules: thread property */

/* reference */
static bool ref_chain_B(unsigned e, packed_chain_B const *c, unsigned *out)
{
    unsigned back = 0; bool inf = false;
    for (size_t i = 0; i < POIK_HEIGHT; ++i) {
        if (i) { back = tMap[e][back]; e = tCanon[e]; }
        unsigned k = c->x[i].bytes[0] & (U-1);
        if (!tOkB[e][k]) return false;
        if (!i) back = tBackB[e][k];
        else { if (inf || tKillB[k][back]) { inf = true; back = 1; } else back = tPushB[k][back]; }
        e = tIsoB[e][k];
    }
    *out = e;
    return !inf;
}
static bool ref_chain_A(unsigned e, packed_chain_A const *c, unsigned *out)
{
    unsigned back = 0; bool inf = false;
    for (size_t i = 0; i < POIK_WIDTH; ++i) {
        if (i) { back = tMap[e][back]; e = tCanon[e]; }
        unsigned k = c->x[i].bytes[0] & (U-1);
        if (!tOkA[e][k]) return false;
        if (!i) back = tBackA[e][k];
        else { if (inf || tKillA[k][back]) { inf = true; back = 1; } else back = tPushA[k][back]; }
        e = tIsoA[e][k];
    }
    *out = e;
    return !inf;
}
/* is h the hash of (0x02 || r || j)? */
static bool hashed(unsigned char const *h, unsigned char const *r, unsigned e)
{
    unsigned char in[QLEN], out[HASH_BYTES];
    memset(in, 0, QLEN);
    in[0] = 2; memcpy(in + 1, r, HIDE_BYTES); in[1 + HIDE_BYTES] = tJ[e];
    fold(out, HASH_BYTES, in, QLEN);
    bool m = true;
    for (unsigned k = 0; k < HASH_BYTES; ++k) m &= out[k] == h[k];
    return m;
}
static bool eqb(unsigned char const *a, unsigned char const *b, unsigned n) { bool m = true; for (unsigned k = 0; k < n; ++k) m &= a[k] == b[k]; return m; }
static struct proof prf;

void harness(void)
{
    FILL(tIsoA, U-1); FILL(tOkA, 1); FILL(tPushA, U-1); FILL(tKillA, 1); FILL(tBackA, U-1);
    FILL(tIsoB, U-1); FILL(tOkB, 1); FILL(tPushB, U-1); FILL(tKillB, 1); FILL(tBackB, U-1);
    FILL(tCurveOk, 1); FILL(tCanon, U-1); FILL(tMap, U-1); FILL(tJ, 0xff);
    prf.E0.bytes[0] = nd8(); prf.E1.bytes[0] = nd8();
    for (size_t i = 0; i < POIK_REPS; ++i) {
        /* tags are fixed per run (all combinations are run): CBMC then sees one member of the union per response; 9 = any other value */
        static const int tags[] = { TAGS };
        int t = tags[i];
        if (t == 9) { t = (int) (int8_t) nd8(); ASSUME(t < -1 || t > 1); }
        prf.resp[i].tag = t;
        struct response *r = &prf.resp[i];
        if (t == -1) {
            nd_bytes(r->left.r2, HIDE_BYTES); nd_bytes(r->left.h3, HASH_BYTES);
            for (size_t k = 0; k < POIK_HEIGHT; ++k) r->left.chain.x[k].bytes[0] = nd8();
        } else if (t == 0) {
            nd_bytes(r->bottom.r2, HIDE_BYTES); nd_bytes(r->bottom.r3, HIDE_BYTES);
            r->bottom.E2.bytes[0] = nd8();
            for (size_t k = 0; k < POIK_WIDTH; ++k) r->bottom.chain.x[k].bytes[0] = nd8();
        } else if (t == 1) {
            nd_bytes(r->right.h2, HASH_BYTES); nd_bytes(r->right.r3, HIDE_BYTES);
            for (size_t k = 0; k < POIK_HEIGHT; ++k) r->right.chain.x[k].bytes[0] = nd8();
        }
    }
    for (size_t k = 0; k < POIK_REPS; ++k) { chall[k] = (int8_t) nd8(); ASSUME(chall[k] >= -1 && chall[k] <= 1); }

    bool acc = Verify(&prf);

    /* reference verdict */
    bool ok = tCurveOk[prf.E0.bytes[0] & (U-1)] && tCurveOk[prf.E1.bytes[0] & (U-1)];
    bool spec = ok;
    unsigned e0 = prf.E0.bytes[0] & (U-1), e1 = prf.E1.bytes[0] & (U-1);
    struct commitment const *c = &absorbed_c;
    bool bound = c->j0.bytes[0] == tJ[e0] && c->j1.bytes[0] == tJ[e1];
    for (unsigned k = 1; k < SIDH_BYTES; ++k) bound &= c->j0.bytes[k] == 0 && c->j1.bytes[k] == 0;
    for (size_t i = 0; i < POIK_REPS; ++i) {
        struct response const *r = &prf.resp[i];
        unsigned a = 0, b = 0;
        spec &= r->tag == chall[i];
        if (r->tag == -1) {
            spec &= ref_chain_B(e0, &r->left.chain, &a);
            bound &= hashed(c->hs[i].h2, r->left.r2, a) && eqb(c->hs[i].h3, r->left.h3, HASH_BYTES);
        } else if (r->tag == 0) {
            unsigned e2 = r->bottom.E2.bytes[0] & (U-1);
            spec &= tCurveOk[e2] && ref_chain_A(e2, &r->bottom.chain, &b);
            bound &= hashed(c->hs[i].h2, r->bottom.r2, e2) && hashed(c->hs[i].h3, r->bottom.r3, b);
        } else if (r->tag == 1) {
            spec &= ref_chain_B(e1, &r->right.chain, &b);
            bound &= hashed(c->hs[i].h3, r->right.r3, b) && eqb(c->hs[i].h2, r->right.h2, HASH_BYTES);
        } else spec = false;
    }
    PROVE(!acc || spec, "Verify accepts only if every check of the reference verifier passes");
    PROVE(!spec || acc, "Verify accepts whenever every check of the reference verifier passes");
    PROVE(!acc || (bound && nabsorb == 1 && !bad_hash && !bad_use), "the challenge is derived from j0, j1 and every recomputed commitment");
#ifndef NOACC
    if (acc) REACH("accepting run");
#endif
    if (!acc) REACH("rejecting run");
}
