/* Prover side over an abstract grid of curves: curve (row,col); A-kernels lead one column right, B-kernels one row down.
 * Real: Instance, Prove, Pack_Response, Pack_Chain_A/B, pack_*, unpack_*, hash_hiding, enc_j, Verify, Unpack_*, workers.
 * Stubbed: Isogeny_A/B, Random_Isogeny_Chain_B, canonical_model, eval_iso, fp2div, fp2div_enc, fp2_decode/encode, j_inv, Check_Curve, Ladder, Challenge, SHAKE, randomness. */
#include "vh.h"
#include <pthread.h>
#include <unistd.h>
#include "poik_tu.h"

static unsigned bad;
#define BAD(n) (bad |= 1u << (n))
/* digit 0 of the first coordinate: marker; curve: 0x1000|row<<4|col (+0x10000 when canonical model), A-kernel 0x2000.., B-kernel 0x3000.. , backtracking point 0x4000.. */
static void put(felm_t *x, digit_t v) { for (int k = 0; k < NWORDS_FIELD; ++k) x[0][k] = x[1][k] = 0; x[0][0] = v; }
#define PROJ 0x77
#define MK(k,r,c) ((k)<<12 | (r)<<4 | (c))
#define KIND(m) (((m)>>12)&0xf)
#define ROW(m) (((m)>>4)&0xf)
#define COL(m) ((m)&0xf)
#define CANON 0x10000
#define ODD 0x20000
static unsigned cm(curve_proj const *E) { digit_t m = E->A[0][0]; if (KIND(m) != 1) BAD(0); return (unsigned) m; }
static unsigned pm(point_proj const *P, unsigned kind) { digit_t m = P->X[0][0]; if (KIND(m) != kind || P->Z[0][0] == 0) BAD(1); return (unsigned) m; }
static bool on(unsigned p, unsigned c) { return (p & 0xff) == (c & 0xff) && (p & CANON) == (c & CANON); }

static void push(point_proj *Q, unsigned c, bool down)
{
    digit_t q = Q->X[0][0];
    if (Q->Z[0][0] == 0 || !on(q, c)) { BAD(2); return; }
    if (KIND(q) == (down ? 3 : 2)) BAD(3);     /* pushing a kernel through its own isogeny */
    put(Q->X, (q & ~(digit_t) (CANON | 0xff)) | (down ? MK(0, ROW(c)+1, COL(c)) : MK(0, ROW(c), COL(c)+1))); put(Q->Z, PROJ);
}
bool stub_Isogeny_A(curve_proj const *E, point_proj const *K, curve_proj *EE, point_proj *Q, point_proj *back)
{
    unsigned c = cm(E), k = pm(K, 2);
    if (!on(k, c)) { BAD(4); return false; }
    if (Q) push(Q, c, false);
    if (EE) { put(EE->A, MK(1, ROW(c), COL(c)+1)); put(EE->C, PROJ); }
    if (back) { put(back->X, MK(4, ROW(c), COL(c)+1)); put(back->Z, PROJ); }
    return true;
}
bool stub_Isogeny_B(curve_proj const *E, point_proj const *K, curve_proj *EE, point_proj *Q, point_proj *back)
{
    unsigned c = cm(E), k = pm(K, 3);
    if (!on(k, c)) { BAD(5); return false; }
    if (Q) push(Q, c, true);
    if (EE) { put(EE->A, MK(1, ROW(c)+1, COL(c))); put(EE->C, PROJ); }
    if (back) { put(back->X, MK(4, ROW(c)+1, COL(c))); put(back->Z, PROJ); }
    return true;
}
void stub_Random_Isogeny_Chain_B(curve_proj const *E0, chain_B *chain)
{
    unsigned c = cm(E0); if (ROW(c)) BAD(6);
    for (unsigned i = 0; i <= POIK_HEIGHT; ++i) { put(chain->E[i].A, MK(1, i, COL(c))); put(chain->E[i].C, PROJ); }
    chain->E[0] = *E0;
    for (unsigned i = 0; i < POIK_HEIGHT; ++i) { put(chain->P[i].X, MK(3, i, COL(c))); put(chain->P[i].Z, PROJ); }
}
void stub_canonical_model(curve_proj const *E, mont_iso *iso) { unsigned c = cm(E); put(iso->B, c | CANON); put(iso->r, c); put(iso->u2, 1); }
void stub_eval_iso(mont_iso const *iso, point_proj const *P, point_proj *Q)
{
    digit_t p = P->X[0][0], z = P->Z[0][0];
    if (!on(p, iso->r[0][0])) BAD(7);
    put(Q->X, p | CANON); put(Q->Z, z);
}
bool stub_Check_Curve(curve_proj const *E) { cm(E); return true; }
void stub_j_inv(const f2elm_t A, const f2elm_t C, f2elm_t j) { put(j, A[0][0] & 0xff); }
void stub_fp2div(const f2elm_t X, const f2elm_t Z, f2elm_t x) { if (Z[0][0] == 0) BAD(8); put(x, X[0][0]); }
static void enc(unsigned char *o, digit_t v) { memset(o, 0, FP2_ENCODED_BYTES); for (int k = 0; k < 4; ++k) o[k] = (unsigned char) (v >> 8*k); }
void stub_fp2div_enc(const f2elm_t X, const f2elm_t Z, packed_fp2 *r) { if (Z[0][0] == 0) BAD(8); enc(r->bytes, X[0][0]); }
void stub_fp2_decode(const unsigned char *x, f2elm_t dec) { put(dec, x[0] | x[1] << 8 | x[2] << 16 | (digit_t) x[3] << 24); }
void stub_fp2_encode(const f2elm_t x, unsigned char *e) { enc(e, x[0][0]); }
static unsigned nladder; static digit_t scal[POIK_WIDTH + 1][NWORDS_ORDER]; static unsigned ladder_on[POIK_WIDTH + 1];
void stub_Ladder(point_proj const *P, digit_t const *m, const f2elm_t A, size_t order_bits, point_proj *R)
{
    unsigned p = pm(P, 2);
    if (!on(p, (unsigned) A[0][0])) BAD(9);
    if (order_bits != OALICE_BITS) BAD(10);
    for (int k = 0; k < NWORDS_ORDER; ++k) scal[nladder % (POIK_WIDTH+1)][k] = m[k];
    ladder_on[nladder % (POIK_WIDTH+1)] = COL(p); ++nladder;
    put(R->X, p | ODD); put(R->Z, PROJ);
}
void fpsub(const digit_t *a, const digit_t *b, digit_t *c) { for (int k = 0; k < NWORDS_FIELD; ++k) c[k] = a[k] ^ b[k]; }
void fpcorrection(digit_t *a) { (void) a; }
#define QLEN (1 + HIDE_BYTES + SIDH_BYTES)
static void fold(unsigned char *out, const unsigned char *in)
{
    for (size_t k = 0; k < HASH_BYTES; ++k) out[k] = 0;
    for (size_t k = 0; k < QLEN; ++k) { unsigned r = (k / HASH_BYTES) % 8; unsigned char v = in[k]; out[k % HASH_BYTES] ^= (unsigned char) ((v << r) | (v >> (8 - r))); }
}
void shake256(unsigned char *out, unsigned long long outlen, const unsigned char *in, unsigned long long inlen) { if (outlen != HASH_BYTES || inlen != QLEN) { BAD(11); return; } fold(out, in); }
static void com(unsigned char *h, unsigned char const *r, unsigned j) { unsigned char in[QLEN]; memset(in, 0, QLEN); in[0] = 2; memcpy(in + 1, r, HIDE_BYTES); in[1 + HIDE_BYTES] = j; fold(h, in); }
static struct commitment seen[2]; static unsigned nch; static int8_t chall[POIK_REPS];
void stub_Challenge(struct commitment const *c, int8_t *out) { if (nch < 2) seen[nch] = *c; ++nch; for (size_t k = 0; k < POIK_REPS; ++k) out[k] = chall[k]; }
static unsigned char rlog[4096]; static size_t nr;
int randombytes(unsigned char *p, unsigned long long n) { for (size_t k = 0; k < n; ++k) { unsigned char v = nd8(); p[k] = v; if (nr < sizeof(rlog)) rlog[nr++] = v; } return 0; }
int stub_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { *t = 0; f(x); return 0; }
int stub_pthread_join(pthread_t t, void **r) { return 0; }
long stub_sysconf(int x) { return 1; }

static void secret(struct secret *s)
{
    for (unsigned i = 0; i <= POIK_WIDTH; ++i) enc(s->E[i].bytes, MK(1, 0, i));
    for (unsigned i = 0; i < POIK_WIDTH; ++i) enc(s->P[i].bytes, MK(2, 0, i));
}
static bool eqb(void const *a_, void const *b_, size_t n) { unsigned char const *a = a_, *b = b_; unsigned char d = 0; for (size_t k = 0; k < n; ++k) d |= a[k] ^ b[k]; return d == 0; }
/* the committed square */
void h_instance(void)
{
    static struct secret s; static struct instance v; struct commitment1 c;
    secret(&s);
    Instance(&s, &v, &c);
    bool ok = true;
    for (unsigned r = 0; r <= POIK_HEIGHT; ++r) { ok &= (cm(&v.left.E[r]) & 0xff) == MK(0, r, 0); ok &= (cm(&v.right.E[r]) & 0xff) == MK(0, r, POIK_WIDTH); }
    for (unsigned r = 0; r < POIK_HEIGHT; ++r) { ok &= pm(&v.left.P[r], 3) == MK(3, r, 0); ok &= pm(&v.right.P[r], 3) == MK(3, r, POIK_WIDTH); }
    for (unsigned i = 0; i <= POIK_WIDTH; ++i) ok &= (cm(&v.bottom.E[i]) & 0xff) == MK(0, POIK_HEIGHT, i);
    for (unsigned i = 0; i < POIK_WIDTH; ++i) ok &= pm(&v.bottom.P[i], 2) == MK(2, POIK_HEIGHT, i);
    PROVE(ok, "left, bottom and right chains run along the sides of the commuting square");
    PROVE((cm(&v.E2) & 0xff) == MK(0, POIK_HEIGHT, 0) && (cm(&v.E3) & 0xff) == MK(0, POIK_HEIGHT, POIK_WIDTH), "E2 and E3 are the lower corners");
    unsigned char h[HASH_BYTES];
    com(h, v.r2, MK(0, POIK_HEIGHT, 0)); PROVE(eqb(h, c.h2, HASH_BYTES), "h2 commits to j(E2) under r2");
    com(h, v.r3, MK(0, POIK_HEIGHT, POIK_WIDTH)); PROVE(eqb(h, c.h3, HASH_BYTES), "h3 commits to j(E3) under r3");
    bool fresh = nr == 2*HIDE_BYTES && ((eqb(v.r2, rlog, HIDE_BYTES) && eqb(v.r3, rlog + HIDE_BYTES, HIDE_BYTES)) || (eqb(v.r3, rlog, HIDE_BYTES) && eqb(v.r2, rlog + HIDE_BYTES, HIDE_BYTES)));
    PROVE(fresh, "both hiding values are fresh, independent and fully random");
    PROVE(!bad, "every isogeny of the square is evaluated on a kernel of its own curve");
    REACH("end");
}
/* one response: exactly what is asked, independent of everything else */
static void inst(struct instance *v)
{
    memset(v, 0, sizeof(*v));
    for (unsigned r = 0; r <= POIK_HEIGHT; ++r) { put(v->left.E[r].A, MK(1, r, 0)); put(v->left.E[r].C, PROJ); put(v->right.E[r].A, MK(1, r, POIK_WIDTH)); put(v->right.E[r].C, PROJ); }
    for (unsigned r = 0; r < POIK_HEIGHT; ++r) { put(v->left.P[r].X, MK(3, r, 0)); put(v->left.P[r].Z, PROJ); put(v->right.P[r].X, MK(3, r, POIK_WIDTH)); put(v->right.P[r].Z, PROJ); }
    for (unsigned i = 0; i <= POIK_WIDTH; ++i) { put(v->bottom.E[i].A, MK(1, POIK_HEIGHT, i)); put(v->bottom.E[i].C, PROJ); }
    for (unsigned i = 0; i < POIK_WIDTH; ++i) { put(v->bottom.P[i].X, MK(2, POIK_HEIGHT, i)); put(v->bottom.P[i].Z, PROJ); }
    v->E2 = v->left.E[POIK_HEIGHT]; v->E3 = v->right.E[POIK_HEIGHT];
}
void h_response(void)
{
    static struct instance v; static struct response r; struct commitment1 c, c0;
    inst(&v);
    nd_bytes(v.r2, HIDE_BYTES); nd_bytes(v.r3, HIDE_BYTES); nd_bytes(&c, sizeof(c)); c0 = c;
    unsigned char r2[HIDE_BYTES], r3[HIDE_BYTES]; memcpy(r2, v.r2, HIDE_BYTES); memcpy(r3, v.r3, HIDE_BYTES);
    memset(&r, 0xEE, sizeof(r));
    Pack_Response(WHICH, &v, &c, &r);
    bool ok = r.tag == WHICH;
    packed_fp2 x;
    if (WHICH == -1) {
        ok &= eqb(r.left.r2, r2, HIDE_BYTES) && eqb(r.left.h3, c0.h3, HASH_BYTES);
        for (unsigned i = 0; i < POIK_HEIGHT; ++i) { enc(x.bytes, MK(3, i, 0) | CANON); ok &= eqb(&r.left.chain.x[i], &x, sizeof(x)); }
        for (unsigned k = (unsigned) ((unsigned char *) (&r.left + 1) - (unsigned char *) &r); k < sizeof(r); ++k) { unsigned char b = ((unsigned char *) &r)[k]; ok &= b == 0xEE || b == 0; }
    } else if (WHICH == 0) {
        ok &= eqb(r.bottom.r2, r2, HIDE_BYTES) && eqb(r.bottom.r3, r3, HIDE_BYTES);
        enc(x.bytes, MK(1, POIK_HEIGHT, 0) | CANON); ok &= eqb(&r.bottom.E2, &x, sizeof(x));
        for (unsigned i = 0; i < POIK_WIDTH; ++i) { enc(x.bytes, MK(2, POIK_HEIGHT, i) | CANON | ODD); ok &= eqb(&r.bottom.chain.x[i], &x, sizeof(x)); }
        for (unsigned k = (unsigned) ((unsigned char *) (&r.bottom + 1) - (unsigned char *) &r); k < sizeof(r); ++k) { unsigned char b = ((unsigned char *) &r)[k]; ok &= b == 0xEE || b == 0; }
        /* fresh odd scalars */
        bool sc = nladder == POIK_WIDTH && nr == POIK_WIDTH*SECRETKEY_A_BYTES;
        for (unsigned i = 0; i < POIK_WIDTH; ++i) {
            sc &= ladder_on[i] == i;
            for (unsigned b = 0; b < NWORDS_ORDER*64; ++b) {
                unsigned got = (scal[i][b / 64] >> (b % 64)) & 1;
                if (b == 0) sc &= got == 1;
                else if (b < OALICE_BITS) sc &= got == ((rlog[i*SECRETKEY_A_BYTES + b/8] >> (b % 8)) & 1);
                else sc &= got == 0;
            }
        }
        PROVE(sc, "each kernel of the secret-dependent chain is multiplied by its own fresh random odd scalar");
    } else {
        ok &= eqb(r.right.h2, c0.h2, HASH_BYTES) && eqb(r.right.r3, r3, HIDE_BYTES);
        for (unsigned i = 0; i < POIK_HEIGHT; ++i) { enc(x.bytes, MK(3, i, POIK_WIDTH) | CANON); ok &= eqb(&r.right.chain.x[i], &x, sizeof(x)); }
        for (unsigned k = (unsigned) ((unsigned char *) (&r.right + 1) - (unsigned char *) &r); k < sizeof(r); ++k) { unsigned char b = ((unsigned char *) &r)[k]; ok &= b == 0xEE || b == 0; }
    }
    PROVE(ok, "the response holds exactly the openings and the chain asked for, and nothing else");
    PROVE(!bad, "every point is published on the canonical model of its own curve");
    REACH("end");
}
/* honest proofs verify, and both sides hash the same commitment */
void h_complete(void)
{
    static struct secret s; static struct proof p;
    secret(&s);
    for (unsigned k = 0; k < POIK_REPS; ++k) { chall[k] = (int8_t) ((int) FORK(nd8() % 3) - 1); }
    memset(&p, 0xEE, sizeof(p));
    Prove(&s, &p);
    packed_fp2 x;
    enc(x.bytes, MK(1, 0, 0) | CANON); PROVE(eqb(&p.E0, &x, sizeof(x)), "the proof names the start curve of the secret");
    enc(x.bytes, MK(1, 0, POIK_WIDTH) | CANON); PROVE(eqb(&p.E1, &x, sizeof(x)), "the proof names the end curve of the secret");
    bool tags = true; for (unsigned k = 0; k < POIK_REPS; ++k) tags &= p.resp[k].tag == chall[k];
    PROVE(tags, "every response answers its challenge digit");
    PROVE(nch == 1, "one challenge");
    bool okv = Verify(&p);
    PROVE(nch == 2 && eqb(&seen[0], &seen[1], sizeof(seen[0])), "the verifier recomputes the prover's commitment");
    PROVE(okv, "an honest proof is accepted");
    PROVE(!bad, "every isogeny is evaluated on a kernel of its own curve");
    REACH("end");
}
/* Generate publishes the chain it walked */
static chain_A gchain; static unsigned gcalls;
void stub_Random_Isogeny_Chain_A(curve_proj const *E0, chain_A *chain)
{
    unsigned c = cm(E0); ++gcalls;
    for (unsigned i = 0; i <= POIK_WIDTH; ++i) { put(chain->E[i].A, MK(1, ROW(c), COL(c) + i)); put(chain->E[i].C, PROJ); }
    for (unsigned i = 0; i < POIK_WIDTH; ++i) { put(chain->P[i].X, MK(2, ROW(c), COL(c) + i)); put(chain->P[i].Z, PROJ); }
}
static bool curve_ok;
bool stub2_Check_Curve(curve_proj const *E) { cm(E); return curve_ok; }
void h_generate(void)
{
    static struct secret s; packed_fp2 e, x; memset(&s, 0xEE, sizeof(s));
    curve_ok = FORK(nd8() & 1);
    enc(e.bytes, MK(1, 0, 0));
    bool r = Generate(&e, &s);
    PROVE(r == curve_ok, "a secret is generated exactly for valid start curves");
    if (r) {
        bool ok = gcalls == 1;
        for (unsigned i = 0; i <= POIK_WIDTH; ++i) { enc(x.bytes, MK(1, 0, i)); ok &= eqb(&s.E[i], &x, sizeof(x)); }
        for (unsigned i = 0; i < POIK_WIDTH; ++i) { enc(x.bytes, MK(2, 0, i)); ok &= eqb(&s.P[i], &x, sizeof(x)); }
        PROVE(ok, "the secret holds every curve and kernel of the generated chain in order");
    }
    PROVE(!bad, "well-formed use");
    REACH("end");
}
