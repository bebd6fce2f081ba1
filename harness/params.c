/* security parameters: repetition count, hash and hiding lengths, and that the real loops honour them */
#include "vh.h"
#include "poik_tu.h"
#define LEVEL (SZ <= 503 ? 128 : SZ == 610 ? 192 : 256)
#define REPS (sizeof(((struct proof *) 0)->resp) / sizeof(((struct proof *) 0)->resp[0]))
#define HB sizeof(((struct commitment1 *) 0)->h2)
#define RB sizeof(((struct instance *) 0)->r2)
static struct proof prf;

/* (2/3)^R <= 2^-level  <=>  2^(R+level) <= 3^R */
void h_bounds(void)
{
    static uint32_t w[64]; uint64_t c; unsigned k, top = 0;
    w[0] = 1;
    for (unsigned r = 0; r < REPS; ++r) { c = 0; for (k = 0; k < 64; ++k) { c += 3ull * w[k]; w[k] = (uint32_t) c; c >>= 32; } }
    for (k = 0; k < 64*32; ++k) if (w[k/32] >> k%32 & 1) top = k;
    PROVE(top >= REPS + LEVEL, "soundness error of the repetitions is at most 2^-level");
    PROVE(8*HB >= 2*LEVEL, "commitments are at least twice the level long");
    PROVE(RB >= 2*HB && sizeof(((struct instance *) 0)->r3) >= 2*HB, "hiding randomness is at least twice the commitment length");
    PROVE(sizeof(prf.resp[0].left.r2) >= RB && sizeof(prf.resp[0].bottom.r2) >= RB && sizeof(prf.resp[0].bottom.r3) >= RB && sizeof(prf.resp[0].right.r3) >= RB, "responses carry complete hiding values");
    PROVE(sizeof(prf.resp[0].left.h3) >= HB && sizeof(prf.resp[0].right.h2) >= HB, "responses carry complete commitments");
    PROVE(sizeof(((struct commitment *) 0)->hs) / sizeof(((struct commitment *) 0)->hs[0]) == REPS, "one commitment pair per repetition");
    REACH("end");
}

/* the commitment hash: all hiding and invariant bytes go in (injectively), a full-length output comes out */
static unsigned char cap[2][2048]; static size_t caplen[2], outlen[2]; static unsigned nh, outbad; static unsigned char ostream[64 + 8];
void stub_shake256(unsigned char *o, unsigned long long n, const unsigned char *in, unsigned long long l)
{
    ASSUME(nh < 2 && l <= sizeof(cap[0]) && n <= sizeof(ostream));
    for (size_t k = 0; k < l; ++k) cap[nh][k] = in[k];
    for (size_t k = 0; k < n; ++k) o[k] = ostream[k];
    caplen[nh] = l; outlen[nh] = n; ++nh;
}
void h_hiding(void)
{
    static unsigned char r[2][RB], h[2][HB + 4]; static packed_fp2 v[2]; size_t k;
    nd_bytes(r, sizeof r); nd_bytes(v, sizeof v); nd_bytes(ostream, HB);
    for (k = 0; k < HB + 4; ++k) h[0][k] = h[1][k] = 0xa5;
    hash_hiding(r[0], &v[0], h[0]); hash_hiding(r[1], &v[1], h[1]);
    bool same = caplen[0] == caplen[1], eq = true, full = true;
    for (k = 0; k < caplen[0] && k < sizeof(cap[0]); ++k) same &= cap[0][k] == cap[1][k];
    for (k = 0; k < RB; ++k) eq &= r[0][k] == r[1][k];
    for (k = 0; k < sizeof v[0]; ++k) eq &= v[0].bytes[k] == v[1].bytes[k];
    PROVE(nh == 2 && (!same || eq), "every bit of the hiding value and of the invariant enters the commitment hash");
    PROVE(outlen[0] >= HB, "hash output of full length");
    for (k = 0; k < HB; ++k) full &= h[0][k] == ostream[k];
    PROVE(full, "all commitment bytes come from the hash output");
    PROVE(h[0][HB] == 0xa5 && h[0][HB+3] == 0xa5, "nothing beyond the commitment is written");
    REACH("end");
}

/* real repetition count: verifier */
static unsigned char seen[REPS], seenp[REPS], tagv[REPS]; static size_t badrep, badtag; static int8_t delta; static unsigned nchall; static bool commok;
static int8_t tg(size_t i) { return (int8_t) (i * 7 % 3) - 1; }
bool stub_Check_Curve(curve_proj const *E) { return true; }
void stub_enc_j(curve_proj const *E, packed_fp2 *j) { for (unsigned k = 0; k < sizeof *j; ++k) j->bytes[k] = 1; }
bool stub_unpack_curve(packed_fp2 const *x, curve_proj *E, bool chk) { return true; }
void stub_pack_curve(curve_proj const *E, packed_fp2 *x) { }
bool stub_Unpack_Response(struct proof const *p, struct response const *r, int8_t *which, struct commitment1 *comm)
{
    size_t i = r - p->resp; *which = tg(i);
    comm->h2[0] = (unsigned char) i; comm->h3[HB-1] = (unsigned char) (i >> 8);
    if (i == badrep) return false;
    seen[i]++;
    return true;
}
void stub_Challenge(struct commitment const *comm, int8_t *out)
{
    ++nchall; commok = true;
    for (size_t i = 0; i < REPS; ++i) {
        out[i] = tg(i) ^ (i == badtag ? delta : 0);
        commok &= comm->hs[i].h2[0] == (unsigned char) i && comm->hs[i].h3[HB-1] == (unsigned char) (i >> 8);
    }
}
int stub_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) { *t = 0; f(x); return 0; }
int stub_pthread_join(pthread_t t, void **r) { return 0; }
long stub_sysconf(int x) { return 1; }
void h_verify(void)
{
    badrep = nd64(); badtag = nd64(); delta = (int8_t) nd8();
    ASSUME(badrep <= REPS && badtag < REPS);
    bool ok = Verify(&prf);
    PROVE(!ok || badrep >= REPS, "accepted only if every repetition verified");
    PROVE(!ok || delta == 0, "accepted only if every tag equals its challenge digit");
    PROVE(!ok || (nchall == 1 && commok), "accepted only with a challenge over the commitments of all repetitions");
    PROVE(ok || badrep < REPS || delta != 0, "all repetitions right: accepted");
    REACH("end");
}
/* prover */
static struct instance *inst0; static struct commitment1 *comm0; static bool order = true;
void stub_Instance(struct secret const *s, struct instance *v, struct commitment1 *comm)
{
    static size_t n;
    if (!n++) inst0 = v, comm0 = comm;
    size_t i = v - inst0; order &= i < REPS && (size_t) (comm - comm0) == i;
    if (i < REPS) seen[i]++;
    v->r2[0] = (unsigned char) i; comm->h2[0] = (unsigned char) i; comm->h3[HB-1] = (unsigned char) (i >> 8);
}
void stub_Pack_Response(int8_t which, struct instance const *v, struct commitment1 *c, struct response *r)
{
    size_t i = v - inst0; order &= i < REPS && (size_t) (c - comm0) == i && (size_t) (r - prf.resp) == i;
    if (i < REPS) { order &= which == (int8_t) (tg(i) ^ (i == badtag ? delta : 0)); seenp[i]++; }
}
void h_prove(void)
{
    static struct secret sec;
    badtag = nd64(); delta = (int8_t) nd8(); ASSUME(badtag < REPS);
    Prove(&sec, &prf);
    bool all = true;
    for (size_t i = 0; i < REPS; ++i) all &= seen[i] == 1 && seenp[i] == 1;
    PROVE(all, "each repetition is committed to and answered exactly once");
    PROVE(order, "each response belongs to its repetition and challenge digit");
    PROVE(nchall == 1 && commok, "challenge over the commitments of all repetitions");
    REACH("end");
}
