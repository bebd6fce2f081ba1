/* The real main() of prove.c / verify.c with every library call's outcome symbolic. */
#include "vh.h"
#include <string.h>
#ifndef SZ
#define SZ 434
#endif
#define POIK_BITS SZ
#include "poik.h"
static char fo[8], fe[8], fi[8];
#undef stdout
#undef stderr
#undef stdin
#define stdout ((FILE *) fo)
#define stderr ((FILE *) fe)
#define stdin ((FILE *) fi)
FILE *Progress_Indicator_File;
enum { PARSE, GENERATE, PROVEIT, DUMP, VERIFY, DUMP0, DUMP1, NST };
static unsigned calls[NST], bad; static bool flushed, wrote, dirty, closed; static uint8_t o_parse, o_gen, o_dump, o_ver, o_d0, o_d1, o_mal, o_flush;
static struct proof store; static struct secret *gsec; static bool live; static uint8_t e0b;
static void start(void) { o_parse = nd8() & 1; o_gen = nd8() & 1; o_dump = nd8() & 1; o_ver = nd8() & 1; o_d0 = nd8() & 1; o_d1 = nd8() & 1; o_mal = nd8() & 1; o_flush = nd8() & 1; e0b = nd8(); }
void *stub_malloc(size_t n) { if (!o_mal) return NULL; if (n < sizeof(store)) bad |= 1; live = true; memset(&store, 0, sizeof(store)); return &store; }
void *stub_calloc(size_t a, size_t n) { return stub_malloc(a*n); }
void stub_free(void *p) { if (p) { if (p != (void *) &store || !live) bad |= 2; live = false; } }
static bool use(struct proof const *p) { if (p != &store || !live) { bad |= 4; return false; } return true; }
static void io(FILE *f, FILE *want) { if (f != want) bad |= 8; }
bool Parse_Fp2(FILE *f, packed_fp2 *v) { ++calls[PARSE]; io(f, stdin); if (o_parse) v->bytes[0] = e0b; return o_parse; }
bool Generate(packed_fp2 const *E0, struct secret *s)
{
    ++calls[GENERATE]; uint8_t want = calls[PARSE] ? e0b : 0; bool ok = E0->bytes[0] == want; for (unsigned k = 1; k < SIDH_BYTES; ++k) ok &= E0->bytes[k] == 0; if (!ok) bad |= 16;
    gsec = s; if (o_gen) memset(s, 0x31, sizeof(*s)); return o_gen;
}
void Prove(struct secret const *s, struct proof *p) { ++calls[PROVEIT]; if (use(p)) { bool ok = calls[GENERATE] == 1 && o_gen; for (unsigned k = 0; k < sizeof(*s); ++k) ok &= ((unsigned char const *) s)[k] == 0x31; if (!ok) bad |= 32; p->E0.bytes[0] = 0x42; p->resp[POIK_REPS-1].tag = 1; } }
static void w(FILE *f) { io(f, stdout); wrote = true; dirty = true; if (closed) bad |= 64; }
bool Dump(FILE *f, struct proof const *p) { ++calls[DUMP]; w(f); if (use(p) && (p->E0.bytes[0] != 0x42 || p->resp[POIK_REPS-1].tag != 1)) bad |= 128; return o_dump; }
bool Parse(FILE *f, struct proof *p) { ++calls[PARSE]; io(f, stdin); if (use(p)) { p->E0.bytes[0] = 0x51; p->E1.bytes[0] = 0x52; p->resp[POIK_REPS-1].tag = 1; } return o_parse; }
bool Verify(struct proof *p) { ++calls[VERIFY]; if (use(p) && (p->E0.bytes[0] != 0x51 || p->resp[POIK_REPS-1].tag != 1)) bad |= 256; return o_ver; }
bool Dump_Fp2(FILE *f, packed_fp2 const *v)
{
    w(f); if (!live) bad |= 4;
    if (v->bytes[0] == 0x51) { ++calls[DUMP0]; if (calls[DUMP1]) bad |= 512; return o_d0; }
    if (v->bytes[0] == 0x52) { ++calls[DUMP1]; return o_d1; }
    bad |= 1024; return true;
}
int stub_fflush(FILE *f) { if (f && f != stdout) return 0; if (dirty && !o_flush) return -1; dirty = false; return 0; }
int stub_fclose(FILE *f) { int r = stub_fflush(f); if (f == stdout) closed = true; return r; }
int stub_ferror(FILE *f) { return f == stdout && (!o_dump || !o_d0 || !o_d1); }
int stub_fputs(const char *s, FILE *f) { if (f == stdout) w(f); return 1; }
int stub_fputc(int c, FILE *f) { if (f == stdout) w(f); return c; }
int stub_fprintf(FILE *f, const char *s, ...) { if (f == stdout) w(f); return 1; }
int stub_strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (unsigned char) *a - (unsigned char) *b; }
static void finish(int rc);
void stub_exit(int rc) { finish(rc); ASSUME(0); }
#define main cli_main
#ifdef CLI_PROVE
static bool initial;
#include CLIFILE
#undef main
void h_prove(void)
{
    start(); static char pn[] = "prove", a1[12], a2[] = "--initial"; static char *argv[4] = {pn};
    unsigned form = FORK(nd8() % 3); int argc = form ? 2 : 1; initial = form == 1;
    argv[1] = form == 1 ? a2 : form == 2 ? a1 : NULL;
    if (form == 2) { memcpy(a1, a2, 10); unsigned k = FORK(nd8() % 10); uint8_t v = nd8(); ASSUME(v != (uint8_t) a2[k]); a1[k] = (char) v; }   /* any argument one character off */
    finish(cli_main(argc, argv));
}
static void finish(int rc)
{
    bool good = (initial || o_parse) && o_gen && o_mal && o_dump && o_flush;
    PROVE((rc & 0xff) != 0 || good, "prove exits 0 only if the curve was read, the secret generated and the whole proof written and flushed");
    PROVE(!good || (rc & 0xff) == 0, "prove succeeds when nothing fails");
    PROVE((rc & 0xff) != 0 || (calls[PARSE] == !initial && calls[GENERATE] == 1 && calls[PROVEIT] == 1 && calls[DUMP] == 1), "one proof of one freshly generated secret is written");
    PROVE(!bad, "prove passes the parsed curve, its own secret and its own proof, and writes only to stdout");
    REACH("end");
}
#else
#include CLIFILE
#undef main
void h_verify(void)
{
    start();
    finish(((int (*)(int, char **)) cli_main)(1, (char *[]) {"verify", NULL}));
}
static void finish(int rc)
{
    bool good = o_mal && o_parse && o_ver && o_d0 && o_d1 && o_flush;
    PROVE((rc & 0xff) != 0 || good, "verify exits 0 only if the proof parsed, verified, and both curves were written and flushed");
    PROVE(!good || (rc & 0xff) == 0, "verify succeeds on a valid proof when nothing fails");
    PROVE((rc & 0xff) != 0 || (calls[PARSE] == 1 && calls[VERIFY] == 1 && calls[DUMP0] == 1 && calls[DUMP1] == 1), "start and end curve of the verified proof are written once each");
    PROVE(!wrote || (calls[PARSE] == 1 && o_parse && calls[VERIFY] == 1 && o_ver), "nothing is written for a proof that did not verify");
    PROVE(!bad, "verify uses the parsed proof throughout and writes only to stdout");
    REACH("end");
}
#endif
