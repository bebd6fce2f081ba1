/* Challenge() and sample_ternary(): everything absorbed, balanced ternary digits by rejection from the hash stream */
#include "vh.h"
#include "poik_tu.h"
#ifndef NB
#define NB 3
#endif
#ifndef NT
#define NT 11
#endif
/* sampler on its own: digits in range, one byte -> 5 digits, injective, rejected exactly from 243 on */
void h_sampler(void)
{
    uint8_t b[NB]; int8_t t[NT + 2], one[2][5];
    nd_bytes(b, NB);
    size_t nt = nd8(); ASSUME(nt <= NT);
    size_t nb = nd8(); ASSUME(nb <= NB);
    for (unsigned k = 0; k < NT + 2; ++k) t[k] = 0x55;
    size_t r = sample_ternary(b, nb, t, nt);
    size_t pos = 0;
    bool same = true, range = true, outside = true;
    for (unsigned i = 0; i < NB; ++i) {
        if (i >= nb) continue;
        int8_t d[5] = {0}; size_t n = sample_ternary(&b[i], 1, d, 5);
        PROVE(n == (b[i] < 243 ? 5 : 0), "exactly the bytes below 243 are used, each for five digits");
        if (n) for (unsigned j = 0; j < 5; ++j) { if (pos < nt) same &= t[pos++] == d[j]; range &= d[j] >= -1 && d[j] <= 1; }
    }
    for (unsigned k = 0; k < NT + 2; ++k) if (k >= pos) outside &= t[k] == 0x55;
    PROVE(r == pos, "the number of digits produced is returned");
    PROVE(same, "digits come from the bytes in order");
    PROVE(range, "every digit is -1, 0 or 1");
    PROVE(outside, "nothing beyond the returned digits is written");
    REACH("end");
}
void h_injective(void)
{
    uint8_t v = nd8(), w = nd8(); ASSUME(v < 243 && w < 243 && v != w);
    int8_t a[5], b[5];
    sample_ternary(&v, 1, a, 5); sample_ternary(&w, 1, b, 5);
    bool eq = true; for (int j = 0; j < 5; ++j) eq &= a[j] == b[j];
    PROVE(!eq, "distinct accepted bytes give distinct digit groups (each of the 3^5 groups has one byte: no bias)");
    REACH("end");
}
/* whole function: hash replaced by a capturing stub with an arbitrary output stream */
#define BLOCKS 4
static unsigned char stream[BLOCKS*136];
static size_t spos; static unsigned bad, nabs;
static struct commitment comm;
static unsigned char absorbed[1 + sizeof(struct commitment)];
static void absorb(const unsigned char *in, size_t n) { ++nabs; if (n != sizeof(absorbed)) { bad |= 1; return; } for (size_t k = 0; k < sizeof(absorbed); ++k) absorbed[k] = in[k]; }
static void squeeze(unsigned char *o, size_t n) { if (nabs != 1) bad |= 4; for (size_t k = 0; k < n; ++k) { if (spos >= sizeof(stream)) { bad |= 2; o[k] = 0; } else o[k] = stream[spos++]; } }
void shake256_absorb(uint64_t *s, const unsigned char *in, unsigned int n) { for (int k = 0; k < 25; ++k) if (s[k]) bad |= 8; absorb(in, n); s[0] = 1; }
void shake256_squeezeblocks(unsigned char *o, unsigned long long nb, uint64_t *s) { if (s[0] != 1) bad |= 16; squeeze(o, 136*nb); }
void shake256(unsigned char *o, unsigned long long n, const unsigned char *in, unsigned long long l) { absorb(in, l); squeeze(o, n); }
void h_challenge(void)
{
    static const unsigned char pos[] = { SYMPOS };
#ifdef SYMCOMM
    nd_bytes(&comm, sizeof(comm));
#endif
    for (unsigned k = 0; k < sizeof(stream); ++k) stream[k] = FILLER;
    for (unsigned b = 0; b < BLOCKS - 1; ++b) for (unsigned k = 0; k < sizeof(pos); ++k) stream[b*136 + pos[k]] = nd8();
    for (unsigned k = 0; k < 136; ++k) stream[(BLOCKS-1)*136 + k] = (unsigned char) (37*k + 5);
    int8_t ch[POIK_REPS + 1]; ch[POIK_REPS] = 0x55;
    Challenge(&comm, ch);
    size_t n = 0;
    bool ok = ch[POIK_REPS] == 0x55;
    for (unsigned k = 0; k < sizeof(stream); ++k) {
        unsigned v = stream[k];
        if (v >= 243) continue;
        for (int j = 0; j < 5; ++j) { if (n < POIK_REPS) ok &= ch[n++] == (int8_t) (v % 3 == 2 ? -1 : (int) (v % 3)); v /= 3; }
    }
    PROVE(ok && n == POIK_REPS, "the challenge is the balanced ternary expansion of the hash stream, one digit per repetition");
    bool abs = absorbed[0] == 1;
    for (size_t k = 0; k < sizeof(comm); ++k) abs &= absorbed[1 + k] == ((unsigned char *) &comm)[k];
    PROVE(abs && nabs == 1 && !bad, "the hash input is the domain byte followed by the complete commitment, output read as one stream");
    REACH("end");
}
