/* SIKE KEM (plain and compressed): crypto_kem_keypair/enc/dec, ct_compare, ct_cmov, random_mod_order_* are real.
 * Key generation, key agreement, ciphertext validation and SHAKE256 are consistent oracles (equal inputs -> equal, otherwise arbitrary outputs);
 * the key agreement oracle commutes.  Oracle inputs are recorded, so "which bytes were hashed" is decided, not assumed. */
#include "vh.h"
#ifndef SZ
#define SZ 434
#endif
#define STR_(x) #x
#define STR(x) STR_(x)
#ifdef COMP
#if SZ == 434
#include "P434/P434_compressed.c"
#elif SZ == 503
#include "P503/P503_compressed.c"
#elif SZ == 610
#include "P610/P610_compressed.c"
#else
#include "P751/P751_compressed.c"
#endif
#define C0BYTES PARTIALLY_COMPRESSED_CHUNK_CT
#define SKD SECRETKEY_A_BYTES
#define SKE SECRETKEY_B_BYTES
#define TB (2*FP2_ENCODED_BYTES + SECRETKEY_A_BYTES)
#define XB FP2_ENCODED_BYTES
#else
#if SZ == 434
#include "P434/P434.c"
#elif SZ == 503
#include "P503/P503.c"
#elif SZ == 610
#include "P610/P610.c"
#else
#include "P751/P751.c"
#endif
#define C0BYTES CRYPTO_PUBLICKEYBYTES
#define SKD SECRETKEY_B_BYTES
#define SKE SECRETKEY_A_BYTES
#define TB 0
#define XB 0
#endif
typedef unsigned char u8;
enum { SHAKE = 1, KGE, KGD, AGE, AGD, VAL };
#define MAXIN (CRYPTO_CIPHERTEXTBYTES + CRYPTO_SECRETKEYBYTES + 2*MSG_BYTES)
#define MAXOUT (CRYPTO_PUBLICKEYBYTES + C0BYTES + 2*FP2_ENCODED_BYTES + TB + 64)
static struct { int kind; unsigned in, outl; u8 x[MAXIN], y[MAXOUT]; } T[16];
static unsigned nT, bad;
static u8 diff(const u8 *a, const u8 *b, unsigned n) { u8 d = 0; for (unsigned i = 0; i < n; ++i) d |= a[i] ^ b[i]; return d; }
static u8 eqmask(u8 d) { return (u8) (0 - (d == 0)); }
/* consistent oracle on the concatenation of up to four strings */
static u8 *oracle(int kind, u8 *out, unsigned outl, const u8 *a, unsigned na, const u8 *b, unsigned nb, const u8 *c, unsigned nc, const u8 *d, unsigned nd_)
{
    unsigned n = na + nb + nc + nd_, i, k;
    if (n > MAXIN || outl > MAXOUT || nT >= 16) { bad |= 1; return out; }
    u8 *x = T[nT].x, *y = T[nT].y;
    for (i = 0; i < na; ++i) x[i] = a[i];
    for (i = 0; i < nb; ++i) x[na+i] = b[i];
    for (i = 0; i < nc; ++i) x[na+nb+i] = c[i];
    for (i = 0; i < nd_; ++i) x[na+nb+nc+i] = d[i];
    for (k = 0; k < outl; ++k) y[k] = nd8();
    for (i = 0; i < nT; ++i)
        if (T[i].kind == kind && T[i].in == n) {
            u8 m = eqmask(diff(T[i].x, x, n));
            for (k = 0; k < outl && k < T[i].outl; ++k) y[k] = (T[i].y[k] & m) | (y[k] & ~m);
        }
    T[nT].kind = kind; T[nT].in = n; T[nT].outl = outl; ++nT;
    for (k = 0; k < outl; ++k) out[k] = y[k];
    return out;
}
void stub_shake256(u8 *out, unsigned long long outl, const u8 *in, unsigned long long inl) { oracle(SHAKE, out, (unsigned) outl, in, (unsigned) inl, 0,0, 0,0, 0,0); }
static u8 rnd[4][SKD + SKE + MSG_BYTES]; static unsigned nrnd, rfail = 99;
int stub_randombytes(u8 *b, unsigned long long n)
{
    if (n > sizeof(rnd[0]) || nrnd >= 4) { bad |= 2; return 0; }
    if (nrnd == rfail) { ++nrnd; for (unsigned i = 0; i < n; ++i) b[i] = 0x5a; return 1; }
    for (unsigned i = 0; i < n; ++i) b[i] = rnd[nrnd][i] = nd8();
    ++nrnd; return 0;
}
/* the party that owns the long-term key (decapsulator) */
static int kgd(const u8 *sk, u8 *pk) { oracle(KGD, pk, CRYPTO_PUBLICKEYBYTES, sk, SKD, 0,0, 0,0, 0,0); return 0; }
static int kge(const u8 *sk, u8 *c0) { oracle(KGE, c0, C0BYTES, sk, SKE, 0,0, 0,0, 0,0); return 0; }
static int age(const u8 *sk, const u8 *pk, u8 *j) { oracle(AGE, j, FP2_ENCODED_BYTES, sk, SKE, pk, CRYPTO_PUBLICKEYBYTES, 0,0, 0,0); return 0; }
static int agd(const u8 *sk, const u8 *c0, u8 *j)
{
    u8 o[FP2_ENCODED_BYTES + TB + 1]; unsigned i, k, l, m;
    oracle(AGD, o, sizeof(o), sk, SKD, c0, C0BYTES, 0,0, 0,0);
    for (k = 0; k < FP2_ENCODED_BYTES + TB; ++k) j[k] = o[k];
    u8 st = o[FP2_ENCODED_BYTES + TB] & 1;
    for (i = 0; i < nT; ++i) if (T[i].kind == KGD)
        for (l = 0; l < nT; ++l) if (T[l].kind == AGE)
            for (m = 0; m < nT; ++m) if (T[m].kind == KGE) {     /* commutation: same secrets on both sides */
                u8 e = eqmask(diff(T[i].x, sk, SKD) | diff(T[i].y, T[l].x + SKE, CRYPTO_PUBLICKEYBYTES) | diff(T[l].x, T[m].x, SKE) | diff(T[m].y, c0, C0BYTES));
                for (k = 0; k < FP2_ENCODED_BYTES; ++k) j[k] = (T[l].y[k] & e) | (j[k] & ~e);
                st &= ~e;
            }
    return st;
}
#ifdef COMP
int stub_kgd(u8 *sk, u8 *pk) { kgd(sk, pk); u8 t[XB]; oracle(KGD + 100, t, XB, sk, SKD, 0,0, 0,0, 0,0); for (unsigned k = 0; k < XB; ++k) sk[SKD + CRYPTO_PUBLICKEYBYTES + k] = t[k]; return 0; }
int stub_kge(const u8 *sk, u8 *c0, unsigned sike) { if (sike != 1) bad |= 4; return kge(sk, c0); }
int stub_agd(const u8 *sk, const u8 *c0, u8 *j, unsigned sike) { if (sike != 1) bad |= 4; return agd(sk, c0, j); }
static u8 xKA_ok(const u8 *x) { u8 e = 0; for (unsigned i = 0; i < nT; ++i) if (T[i].kind == KGD + 100) e |= eqmask(diff(T[i].y, x, XB)); return e; }
int8_t stub_val(const u8 *esk, const u8 *c0, const u8 *xKA, const u8 *tp)
{
    u8 o[1], h = 0; oracle(VAL, o, 1, esk, SKE, c0, C0BYTES, xKA, XB, tp, TB);
    for (unsigned i = 0; i < nT; ++i) if (T[i].kind == KGE) h |= eqmask(diff(T[i].x, esk, SKE) | diff(T[i].y, c0, C0BYTES));
    u8 r = (u8) (0 - (o[0] & 1)); r &= ~(h & xKA_ok(xKA));
    return (int8_t) r;
}
static void fmt(u8 *e) { FormatPrivKey_B(e); }
#else
int stub_kgd(const u8 *sk, u8 *pk) { return kgd(sk, pk); }
int stub_kge(const u8 *sk, u8 *c0) { return kge(sk, c0); }
int stub_agd(const u8 *sk, const u8 *c0, u8 *j, unsigned sike) { if (sike != 1) bad |= 4; return agd(sk, c0, j); }
static void fmt(u8 *e) { e[SKE-1] &= MASK_ALICE; }
#endif
int stub_age(const u8 *sk, const u8 *pk, u8 *j) { return age(sk, pk, j); }

static u8 pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], ss[CRYPTO_BYTES], ss2[CRYPTO_BYTES];
#define PROVE_EQ(a, b, n, msg) do { for (unsigned q_ = 0; q_ < (n); ++q_) PROVE((a)[q_] == (b)[q_], msg); } while (0)
static u8 buf[MAXIN];

/* reference encapsulation from message m */
static void ref_enc(const u8 *m, u8 *rc, u8 *rs)
{
    u8 e[SKE], j[FP2_ENCODED_BYTES], h[MSG_BYTES]; unsigned i;
    oracle(SHAKE, e, SKE, m, MSG_BYTES, pk, CRYPTO_PUBLICKEYBYTES, 0,0, 0,0); fmt(e);
    kge(e, rc); age(e, pk, j);
    oracle(SHAKE, h, MSG_BYTES, j, FP2_ENCODED_BYTES, 0,0, 0,0, 0,0);
    for (i = 0; i < MSG_BYTES; ++i) rc[C0BYTES + i] = m[i] ^ h[i];
    oracle(SHAKE, rs, CRYPTO_BYTES, m, MSG_BYTES, rc, CRYPTO_CIPHERTEXTBYTES, 0,0, 0,0);
}
void h_enc(void)
{
    static u8 rc[CRYPTO_CIPHERTEXTBYTES], rs[CRYPTO_BYTES], pk0[CRYPTO_PUBLICKEYBYTES];
    nd_bytes(pk, sizeof pk); memcpy(pk0, pk, sizeof pk);
    int r = crypto_kem_enc(ct, ss, pk);
    PROVE(r == 0 && nrnd == 1 && !bad, "encapsulation succeeds and draws its message once");
    PROVE_EQ(pk, pk0, sizeof pk, "public key unchanged");
    ref_enc(rnd[0], rc, rs);
    PROVE_EQ(ct, rc, sizeof ct, "ciphertext = KeyGen(G(m||pk)) || m xor H(j)");
    PROVE_EQ(ss, rs, sizeof ss, "shared secret = H(m||ct)");
    REACH("enc");
}
void h_keypair(void)
{
    static u8 e[SKD], rp[CRYPTO_PUBLICKEYBYTES];
    int r = crypto_kem_keypair(pk, sk);
    PROVE(r == 0 && nrnd == 2 && !bad, "key generation succeeds with two draws");
    PROVE_EQ(sk, rnd[0], MSG_BYTES, "rejection value stored first and fresh");
    memcpy(e, sk + MSG_BYTES, SKD);
    kgd(e, rp);
    PROVE_EQ(pk, rp, sizeof pk, "public key belongs to the stored private key");
    PROVE_EQ(sk + MSG_BYTES + SKD, pk, sizeof pk, "public key appended to the secret key");
    REACH("keypair");
}
void h_fail(void)
{
    rfail = (unsigned) FORK(nd8() % 3);
    int r = crypto_kem_keypair(pk, sk);
    PROVE((r != 0) == (rfail < 2), "key generation reports a failing random source");
    if (r) { REACH("keypair refused"); return; }
    r = crypto_kem_enc(ct, ss, pk);
    PROVE((r != 0) == (rfail == 2), "encapsulation reports a failing random source");
    REACH("enc refused");
}
/* arbitrary key and ciphertext */
void h_dec(void)
{
    static u8 rs[CRYPTO_BYTES], j[FP2_ENCODED_BYTES + TB], h[MSG_BYTES], m[MSG_BYTES], e[SKE], c0[C0BYTES], ct0[CRYPTO_CIPHERTEXTBYTES], sk0[CRYPTO_SECRETKEYBYTES]; unsigned i;
    nd_bytes(sk, sizeof sk); nd_bytes(ct, sizeof ct);
    memcpy(ct0, ct, sizeof ct); memcpy(sk0, sk, sizeof sk);
    int r = crypto_kem_dec(ss, ct, sk);
    PROVE(r == 0 && !bad && nrnd == 0, "decapsulation returns 0");
    PROVE_EQ(ct, ct0, sizeof ct, "ciphertext unchanged");
    PROVE_EQ(sk, sk0, sizeof sk, "secret key unchanged");
    int st = agd(sk0 + MSG_BYTES, ct0, j);
    u8 rej = 1;
    oracle(SHAKE, h, MSG_BYTES, j, FP2_ENCODED_BYTES, 0,0, 0,0, 0,0);
    for (i = 0; i < MSG_BYTES; ++i) m[i] = ct0[C0BYTES + i] ^ h[i];
    oracle(SHAKE, e, SKE, m, MSG_BYTES, sk0 + MSG_BYTES + SKD, CRYPTO_PUBLICKEYBYTES, 0,0, 0,0); fmt(e);
#ifdef COMP
    rej = stub_val(e, ct0, sk0 + MSG_BYTES + SKD + CRYPTO_PUBLICKEYBYTES, j + FP2_ENCODED_BYTES) != 0;
#else
    kge(e, c0); rej = diff(c0, ct0, C0BYTES) != 0;
#endif
    u8 k = (u8) (0 - ((st != 0) | rej));
    for (i = 0; i < MSG_BYTES; ++i) m[i] = (sk0[i] & k) | (m[i] & ~k);
    oracle(SHAKE, rs, CRYPTO_BYTES, m, MSG_BYTES, ct0, CRYPTO_CIPHERTEXTBYTES, 0,0, 0,0);
    PROVE_EQ(ss, rs, sizeof ss, "shared secret = H(m||ct) if ct is the re-encryption of m, else H(s||ct)");
    if (st == 0) REACH("key agreement ok"); else REACH("key agreement refused");
}
void h_round(void)
{
    PROVE(crypto_kem_keypair(pk, sk) == 0, "keypair"); PROVE(crypto_kem_enc(ct, ss, pk) == 0, "enc"); PROVE(crypto_kem_dec(ss2, ct, sk) == 0, "dec");
    PROVE_EQ(ss, ss2, sizeof ss, "honest ciphertexts decapsulate to the encapsulated secret");
    REACH("round trip");
}
