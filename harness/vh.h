/* Common harness header: the same file is compiled by goto-cc (deciding) and by clang (replay). */
#ifndef VH_H
#define VH_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>

#ifdef VSYMX
extern uint64_t vh_nd(int bits); extern void vh_assume(int c); extern void vh_prove(int c, const char *msg); extern void vh_reach(const char *msg); extern uint64_t vh_fork(uint64_t v); extern void vh_in(const char *name, void *p, int words); extern void vh_out(const char *name, void *p, int words);
static inline uint64_t nd64(void) { return vh_nd(64); }
static inline uint8_t  nd8(void)  { return (uint8_t) vh_nd(8); }
#define ASSUME(c)      vh_assume(!!(c))
#define PROVE(c, msg)  vh_prove(!!(c), msg)
#define REACH(msg)     vh_reach(msg)
#define FORK(v)        vh_fork(v)
#define NOTE(k, v)     do { } while (0)
#define VWEAK __attribute__((weak))
/* libc functions without an IR body, in plain C */
VWEAK int strcmp(const char *a, const char *b) { while (*a && *a == *b) ++a, ++b; return (unsigned char) *a - (unsigned char) *b; }
VWEAK int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (unsigned char) *a - (unsigned char) *b; if (!*a) break; } return 0; }
VWEAK char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
VWEAK void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; --n, ++p) if (*p == (unsigned char) c) return (void *) p; return 0; }
VWEAK int isdigit(int c) { return (unsigned) c - '0' < 10; }
VWEAK int isxdigit(int c) { return ((unsigned) c - '0' < 10) | ((unsigned) (c | 32) - 'a' < 6); }
VWEAK int isspace(int c) { return (c == ' ') | ((unsigned) c - 9 < 5); }
VWEAK int tolower(int c) { return (unsigned) c - 'A' < 26 ? c + 32 : c; }
VWEAK int toupper(int c) { return (unsigned) c - 'a' < 26 ? c - 32 : c; }
VWEAK int isupper(int c) { return (unsigned) c - 'A' < 26; }
VWEAK int islower(int c) { return (unsigned) c - 'a' < 26; }
VWEAK int isalpha(int c) { return (unsigned) (c | 32) - 'a' < 26; }
VWEAK int isalnum(int c) { return isalpha(c) | isdigit(c); }
VWEAK int abs(int x) { return x < 0 ? -x : x; }
static unsigned vh_digval(int c) { unsigned d = (unsigned) c - '0', l = (unsigned) (c | 32) - 'a'; unsigned md = -(unsigned) (d < 10), ml = -(unsigned) (l < 26); return (md & d) | (~md & ml & (l + 10)) | (~md & ~ml & 99); }
VWEAK long strtol(const char *s, char **e, int base)
{
    const char *p = s; while (isspace((unsigned char) *p)) ++p;
    int neg = 0; if (*p == '-') neg = 1, ++p; else if (*p == '+') ++p;
    if ((base == 16 || base == 0) && *p && ((p[0] == '0') & ((p[1] | 32) == 'x')) && vh_digval(p[2]) < 16) p += 2, base = 16; else if (base == 0) base = *p == '0' ? 8 : 10;
    long v = 0; const char *q = p; for (; ; ++p) { unsigned d = vh_digval((unsigned char) *p); if (d >= (unsigned) base) break; v = v * base + (long) d; }
    if (e) *e = (char *) (p == q ? s : p); return neg ? -v : v;
}
VWEAK unsigned long strtoul(const char *s, char **e, int base) { return (unsigned long) strtol(s, e, base); }
#elif defined(VCBMC)
#define FORK(v) (v)
static inline uint64_t nd64(void) { uint64_t nd_value; return nd_value; }
static inline uint8_t  nd8(void)  { uint8_t nd_value; return nd_value; }
/* byte-wise definitions: CBMC 6.11's built-in memcpy loses bytes on members at offset 0 of array elements */
void *memcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; for (size_t i = 0; i < n; ++i) a[i] = b[i]; return d; }
void *memset(void *d, int c, size_t n) { unsigned char *a = d; for (size_t i = 0; i < n; ++i) a[i] = (unsigned char) c; return d; }
int memcmp(const void *d, const void *s, size_t n) { const unsigned char *a = d, *b = s; int r = 0; for (size_t i = 0; i < n; ++i) if (!r && a[i] != b[i]) r = a[i] < b[i] ? -1 : 1; return r; }
#define ASSUME(c)      __CPROVER_assume(c)
#define PROVE(c, msg)  __CPROVER_assert((c), "PROP: " msg)
#define REACH(msg)     __CPROVER_assert(0, "REACH: " msg)
#define NOTE(k, v)     do { uint64_t note_##k = (uint64_t)(v); (void)note_##k; } while (0)
#else
/* replay: nondeterministic values come from the file named by VH_REPLAY, in execution order */
#include <unistd.h>
#include <sys/syscall.h>
/* raw system calls only: libc functions may be redirected to stubs in a replay */
static long vh_sys(long n, long a, long b, long c) { long r; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
static void vh_say(const char *a, const char *b) { char t[400]; int n = 0; while (*a && n < 200) t[n++] = *a++; while (*b && n < 398) t[n++] = *b++; t[n++] = '\n'; vh_sys(SYS_write, 2, (long) t, n); }
static char vh_buf[1 << 16]; static int vh_have, vh_pos, vh_fd = -1;
static inline int vh_getc(void)
{
    if (vh_fd < 0) { const char *p = getenv("VH_REPLAY"); vh_fd = (int) vh_sys(SYS_open, (long) (p ? p : "values.txt"), 0, 0); if (vh_fd < 0) { vh_say("replay file", ""); vh_sys(SYS_exit_group, 78, 0, 0); } }
    if (vh_pos >= vh_have) { vh_have = (int) vh_sys(SYS_read, vh_fd, (long) vh_buf, sizeof vh_buf); vh_pos = 0; if (vh_have <= 0) { vh_have = 0; return -1; } }
    return (unsigned char) vh_buf[vh_pos++];
}
static inline uint64_t nd64(void)
{
    uint64_t v = 0; int c = vh_getc();
    while (c == '\n' || c == ' ') c = vh_getc();
    for (; c > ' '; c = vh_getc()) v = v << 4 | (uint64_t) (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
    return v;
}
static inline uint8_t nd8(void) { return (uint8_t) nd64(); }
#define ASSUME(c)      do { if (!(c)) { vh_say("assumption not met: ", #c); vh_sys(SYS_exit_group, 77, 0, 0); } } while (0)
#define PROVE(c, msg)  do { if (!(c)) { vh_say("ASSERTION FAILED: ", msg); vh_sys(SYS_exit_group, 42, 0, 0); } } while (0)
#define REACH(msg)     do { } while (0)
#define FORK(v)        (v)
#define NOTE(k, v)     do { } while (0)
static inline void vh_in(const char *name, void *p, int words) { for (int i = 0; i < words; ++i) ((uint64_t *) p)[i] = nd64(); }
static inline void vh_out(const char *name, void *p, int words)
{
    char t[64]; const char *h = "0123456789abcdef";
    for (int i = 0; i < words; ++i) { uint64_t v = ((uint64_t *) p)[i]; for (int k = 0; k < 16; ++k) t[k] = h[v >> (60 - 4*k) & 15]; t[16] = i + 1 < words ? ' ' : '\n'; vh_sys(SYS_write, 1, (long) t, 17); }
}
#endif

static inline void nd_bytes(void *p, size_t n) { unsigned char *b = p; for (size_t vh_i = 0; vh_i < n; ++vh_i) b[vh_i] = nd8(); }

#define CAT_(a,b) a##b
#define CAT(a,b) CAT_(a,b)
#define CAT3(a,b,c) CAT(CAT(a,b),c)
#endif
