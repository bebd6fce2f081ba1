/* The real worker pool under every interleaving (symx explores schedules; replay: vsched.h).
 * Real: Prove, Verify, run_threads, the three workers. Stubbed: the per-repetition work and the curve arithmetic around it. */
#include "vh.h"
#include <pthread.h>
#include <unistd.h>
#ifndef VSYMX
#include "vsched.h"
#endif
#include "poik_tu.h"
#ifndef NW
#define NW 2
#endif
int randombytes(unsigned char *p, unsigned long long n) { memset(p, 1, n); return 0; }
long stub_sysconf(int x) { return NW; }
bool stub_unpack_curve(packed_fp2 const *a, curve_proj *E, bool check) { return true; }
void stub_pack_curve(curve_proj const *E, packed_fp2 *a) { }
void stub_enc_j(curve_proj const *E, packed_fp2 *j) { j->bytes[0] = 9; }
static struct instance *base; static struct secret sec; static struct proof prf; static struct commitment const *chcomm; static unsigned nch, bad;
/* per-repetition log (written only by the stub of that repetition) */
static unsigned char ni[POIK_REPS], np[POIK_REPS], nu[POIK_REPS]; static uint8_t okm[POIK_REPS]; static int8_t tag[POIK_REPS];
void stub_Instance(struct secret const *s, struct instance *v, struct commitment1 *c)
{
    if (!v->r2[1]) v->r2[1] = 0;
    c->h2[0] = 0x5a; v->r2[0]++;             /* two separate writes: work in progress, work done */
    c->h3[0] = 0xa5;
}
void stub_Challenge(struct commitment const *c, int8_t *out)
{
    ++nch;
    for (unsigned k = 0; k < POIK_REPS; ++k) { if (c->hs[k].h2[0] != 0x5a || c->hs[k].h3[0] != 0xa5) bad |= 1; if (c->j0.bytes[0] != 9 || c->j1.bytes[0] != 9) bad |= 2; out[k] = tag[k]; }
}
void stub_Pack_Response(int8_t which, struct instance const *v, struct commitment1 *c, struct response *r)
{
    unsigned k = (unsigned) (r - prf.resp); np[k]++;
    if (which != tag[k] || v->r2[0] != 1 || c->h3[0] != 0xa5) bad |= 4;
    r->tag = which; r->left.r2[0] = 0x77;
}
bool stub_Unpack_Response(struct proof const *p, struct response const *r, int8_t *which, struct commitment1 *c)
{
    unsigned k = (unsigned) (r - p->resp); nu[k]++;
    *which = (int8_t) r->tag;
    if (!okm[k]) return false;
    c->h2[0] = 0x5a; c->h3[0] = 0xa5;
    return true;
}
void *stub_malloc(size_t n) { static struct instance in[POIK_REPS]; if (n != sizeof(in)) bad |= 8; memset(in, 0, sizeof(in)); return in; }
void stub_free(void *p) { }
static void prove_body(void)
{
    for (unsigned k = 0; k < POIK_REPS; ++k) { tag[k] = (int8_t) nd8(); ASSUME(tag[k] >= -1 && tag[k] <= 1); prf.resp[k].tag = 5; }
    Prove(&sec, &prf);
    PROVE(nch == 1 && !bad, "the challenge is derived from every completed commitment, and every response from its own completed instance");
    bool ok = true; for (unsigned k = 0; k < POIK_REPS; ++k) ok &= np[k] == 1 && prf.resp[k].tag == tag[k] && prf.resp[k].left.r2[0] == 0x77;
    PROVE(ok, "every response is written exactly once before Prove returns");
    REACH("end");
}
static void verify_body(void)
{
    bool all = true;
    for (unsigned k = 0; k < POIK_REPS; ++k) { okm[k] = nd8() & 1; all &= okm[k]; tag[k] = (int8_t) nd8(); ASSUME(tag[k] >= -1 && tag[k] <= 1); prf.resp[k].tag = tag[k]; }
    bool r = Verify(&prf);
    PROVE(!r || all, "a failed repetition is never lost");
    PROVE(!all || r, "success of every repetition is reported");
    if (all) { bool ok = nch == 1 && !bad; for (unsigned k = 0; k < POIK_REPS; ++k) ok &= nu[k] == 1; PROVE(ok, "each repetition is checked exactly once and the challenge uses the complete commitments"); }
    REACH("end");
}
#ifdef VSYMX
void h_prove(void) { prove_body(); }
void h_verify(void) { verify_body(); }
#else
NOS void h_prove(void) { explore(prove_body); }
static uint8_t vals[POIK_REPS];
NOS static void vb(void) { verify_body(); }
NOS void h_verify(void) { explore(vb); }
#endif
