/* Dump / Parse and the field-element text form, against a reference writer and a reference parser. Real: Dump, Dump_Fp2, Parse, Parse_Fp2 and their helpers. */
#include "vh.h"
#include "vio.h"
#include <pthread.h>
#include <unistd.h>
#include <ctype.h>
#include "poik_tu.h"
int randombytes(unsigned char *p, unsigned long long n) { return 0; }
static struct proof P, Q, R;
/* reference writer */
static unsigned char T[TXT]; static size_t tn; static unsigned short cls[TXT];   /* cls: 1 hex digit, 2 separator, 3 marker, 4 tag */
static void o(int c, int k) { T[tn] = (unsigned char) c; cls[tn] = (unsigned short) k; ++tn; }
static void ohex(unsigned v) { o(hexd(v >> 4, 0), 1); o(hexd(v & 15, 0), 1); }
static void obytes(unsigned char const *b, size_t n) { for (size_t k = 0; k < n; ++k) ohex(b[k]); o('\n', 2); }
static void ofp2(packed_fp2 const *v) { for (int h = 0; h < 2; ++h) { o('0', 3); o('x', 3); for (int k = SIDH_BYTES/2; k-- > 0; ) ohex(v->bytes[h*(SIDH_BYTES/2) + k]); o(h ? '\n' : ',', h ? 2 : 3); } }
static void oproof(struct proof const *p)
{
    ofp2(&p->E0); ofp2(&p->E1);
    for (unsigned k = 0; k < POIK_REPS; ++k) {
        struct response const *r = &p->resp[k];
        if (r->tag == -1) { o('-', 4); o('1', 4); } else o('0' + r->tag, 4); o('\n', 2);
        if (r->tag == -1) { obytes(r->left.r2, HIDE_BYTES); obytes(r->left.h3, HASH_BYTES); for (unsigned i = 0; i < POIK_HEIGHT; ++i) ofp2(&r->left.chain.x[i]); }
        else if (r->tag == 0) { obytes(r->bottom.r2, HIDE_BYTES); obytes(r->bottom.r3, HIDE_BYTES); ofp2(&r->bottom.E2); for (unsigned i = 0; i < POIK_WIDTH; ++i) ofp2(&r->bottom.chain.x[i]); }
        else { obytes(r->right.h2, HASH_BYTES); obytes(r->right.r3, HIDE_BYTES); for (unsigned i = 0; i < POIK_HEIGHT; ++i) ofp2(&r->right.chain.x[i]); }
    }
}
/* reference parser over the text T[0..tn) */
static size_t tp;
static void ws(void) { while (tp < tn && sp(T[tp])) ++tp; }
static bool ihex(unsigned char *v) { if (tp + 2 > tn) return false; unsigned a = dv(T[tp]), b = dv(T[tp+1]); if ((a | b) > 15) return false; tp += 2; *v = (unsigned char) (a << 4 | b); return true; }
static bool ibytes(unsigned char *b, size_t n) { ws(); for (size_t k = 0; k < n; ++k) if (!ihex(b + k)) return false; return true; }
static bool ifp2(packed_fp2 *v)
{
    for (int h = 0; h < 2; ++h) {
        if (h) { ws(); if (tp >= tn || T[tp] != ',') return false; ++tp; }
        ws(); if (tp + 2 > tn || T[tp] != '0' || T[tp+1] != 'x') return false; tp += 2;
        for (int k = SIDH_BYTES/2; k-- > 0; ) if (!ihex(&v->bytes[h*(SIDH_BYTES/2) + k])) return false;
    }
    return true;
}
static bool iproof(struct proof *p)
{
    if (!ifp2(&p->E0) || !ifp2(&p->E1)) return false;
    for (unsigned k = 0; k < POIK_REPS; ++k) {
        struct response *r = &p->resp[k]; ws(); bool neg = false; if (tp < tn && (T[tp] == '-' || T[tp] == '+')) neg = T[tp++] == '-';
        long v = 0; unsigned nd = 0; while (tp < tn && T[tp] >= '0' && T[tp] <= '9') { v = v*10 + (T[tp++] - '0'); ++nd; } if (!nd) return false; if (neg) v = -v;
        if (v < -1 || v > 1) return false; r->tag = (int) v;
        bool ok;
        if (v == -1) { ok = ibytes(r->left.r2, HIDE_BYTES) && ibytes(r->left.h3, HASH_BYTES); for (unsigned i = 0; ok && i < POIK_HEIGHT; ++i) ok = ifp2(&r->left.chain.x[i]); }
        else if (v == 0) { ok = ibytes(r->bottom.r2, HIDE_BYTES) && ibytes(r->bottom.r3, HIDE_BYTES) && ifp2(&r->bottom.E2); for (unsigned i = 0; ok && i < POIK_WIDTH; ++i) ok = ifp2(&r->bottom.chain.x[i]); }
        else { ok = ibytes(r->right.h2, HASH_BYTES) && ibytes(r->right.r3, HIDE_BYTES); for (unsigned i = 0; ok && i < POIK_HEIGHT; ++i) ok = ifp2(&r->right.chain.x[i]); }
        if (!ok) return false;
    }
    return true;
}
/* fields in use equal (the unused tail of the union is not part of the proof) */
static bool same(struct proof const *a, struct proof const *b)
{
    unsigned char d = 0;
#define CMP(f) do { unsigned char const *x = (void const *) &a->f, *y = (void const *) &b->f; for (size_t vk = 0; vk < sizeof(a->f); ++vk) d |= x[vk] ^ y[vk]; } while (0)
    CMP(E0); CMP(E1);
    for (unsigned k = 0; k < POIK_REPS; ++k) {
        if (a->resp[k].tag != b->resp[k].tag) return false;
        if (a->resp[k].tag == -1) CMP(resp[k].left); else if (a->resp[k].tag == 0) CMP(resp[k].bottom); else CMP(resp[k].right);
    }
    return d == 0;
}
static void same_prove(struct proof const *a, struct proof const *b)     /* the same, byte by byte */
{
#define CMPP(f) do { unsigned char const *x = (void const *) &a->f, *y = (void const *) &b->f; for (size_t vk = 0; vk < sizeof(a->f); ++vk) PROVE(x[vk] == y[vk], "reading restores every field"); } while (0)
    CMPP(E0); CMPP(E1);
    for (unsigned k = 0; k < POIK_REPS; ++k) {
        PROVE(a->resp[k].tag == b->resp[k].tag, "reading restores every tag");
        if (a->resp[k].tag == -1) CMPP(resp[k].left); else if (a->resp[k].tag == 0) CMPP(resp[k].bottom); else CMPP(resp[k].right);
    }
}
#ifndef NPART
#define NPART 1
#define PART 0
#endif
static void tags3(void) { int t = (int) FORK(nd8() % 3); for (unsigned k = 0; k < POIK_REPS; ++k) P.resp[k].tag = (t + (int) k) % 3 - 1; }
static void tags(void) { for (unsigned k = 0; k < POIK_REPS; ++k) P.resp[k].tag = (int) FORK(nd8() % 3) - 1; }
#ifndef SYMSTRIDE
#define SYMSTRIDE 1
#endif
static void content(bool sym) { unsigned char *b = (void *) &P; for (size_t k = 0; k < sizeof(P); ++k) b[k] = sym && k % SYMSTRIDE == 0 ? nd8() : (unsigned char) (k * 37 + 11); }
/* writing gives the documented text; reading it back restores every field */
void h_roundtrip(void)
{
    content(true); tags();
    vio_f.fail_at = -1;
    bool d = Dump((FILE *) &vio_f, &P);
    PROVE(d, "Dump succeeds when no write fails");
    oproof(&P);
    PROVE(tn == vio_f.n, "the text has the documented length");
    for (size_t k = 0; k < tn && k < vio_f.n; ++k) PROVE(T[k] == vio_f.b[k], "the text is the documented form of every field in order");
    memset(&Q, 0x5c, sizeof(Q));
    bool p = Parse((FILE *) &vio_f, &Q);
    PROVE(p, "a written proof is readable");
    if (p) same_prove(&P, &Q);
    REACH("end");
}
void h_fp2(void)
{
    nd_bytes(&P.E0, sizeof(P.E0)); vio_f.fail_at = -1;
    PROVE(Dump_Fp2((FILE *) &vio_f, &P.E0), "Dump_Fp2 succeeds when no write fails");
    ofp2(&P.E0); PROVE(tn == vio_f.n, "length of a field element"); for (size_t k = 0; k < tn && k < vio_f.n; ++k) PROVE(T[k] == vio_f.b[k], "a field element is written as 0x<real>,0x<imag> in big-endian hexadecimal");
    bool p = Parse_Fp2((FILE *) &vio_f, &Q.E0); PROVE(p, "a written field element is readable");
    if (p) for (unsigned k = 0; k < SIDH_BYTES; ++k) PROVE(P.E0.bytes[k] == Q.E0.bytes[k], "reading restores the element");
    REACH("end");
}
/* a write failure anywhere is reported */
void h_writefail(void)
{
    content(false); tags();
    vio_f.fail_at = -1; Dump((FILE *) &vio_f, &P); long total = vio_f.wcalls;
    uint64_t at = nd64(); ASSUME(at < (uint64_t) total); memset(&vio_f, 0, sizeof(vio_f)); vio_f.fail_at = (long) at;
    PROVE(!Dump((FILE *) &vio_f, &P), "Dump reports a failed write wherever it happens");
    REACH("end");
}
/* a text cut anywhere is rejected */
void h_truncate(void)
{
    content(false); TAGS(); oproof(&P);
    uint64_t at = nd64(); ASSUME(at < tn - 1 && at % NPART == PART); at = FORK(at);
    memcpy(vio_f.b, T, at); vio_f.n = at;
    PROVE(!Parse((FILE *) &vio_f, &Q), "a truncated proof is rejected");
    REACH("end");
}
/* one arbitrary character anywhere: accepted exactly if it still is a proof text, and then with exactly its meaning */
#ifndef STRIDE
#define STRIDE 1
#endif
void h_mutate(void)
{
    content(false); TAGS(); oproof(&P);
    uint64_t at = nd64(); ASSUME(at < tn && at % NPART == PART); at = FORK(at);
    ASSUME(cls[at] != 1 || at % STRIDE == PHASE || (at && cls[at-1] != 1) || (at + 1 < tn && cls[at+1] != 1));
    T[at] = nd8();
    memcpy(vio_f.b, T, tn); vio_f.n = tn;
    bool p = Parse((FILE *) &vio_f, &Q), r = iproof(&R);
    PROVE(!p || r, "a malformed text is rejected");
    PROVE(p || !r, "a well-formed text is accepted");
    if (p && r) PROVE(same(&Q, &R), "an accepted text has exactly its meaning");
    REACH("end");
}
