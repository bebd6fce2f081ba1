/* randombytes() under every schedule of failing open(), failing and short read() */
#include "vh.h"
#include <unistd.h>
#include <fcntl.h>
#include "random/random.c"
#ifndef MAXN
#define MAXN 8
#endif
#define GUARD 4
static unsigned char buf[GUARD + MAXN + GUARD], src_[GUARD + MAXN + GUARD]; static unsigned char touched[GUARD + MAXN + GUARD];
static int opens, fails, fd_open = -1, bad, sleeps;
static unsigned long delivered;
static const char *dev = "/dev/urandom";
int stub_open(const char *p, int flags, ...)
{
    for (int i = 0; i <= 12; ++i) if (p[i] != dev[i]) bad = 1;
    if (fd_open != -1) bad = 2;                      /* opened twice: descriptor leak */
    bool ok = nd8() & 1;
    if (!ok) { ASSUME(++fails <= 2); return -1; }
    fd_open = 3 + (nd8() & 3); ++opens;
    return fd_open;
}
static ssize_t rd(void *b, size_t n)
{
    uint8_t k = nd8();                                /* -1 or 1..n bytes */
    if (k == 0xff) { ASSUME(++fails <= 2); return -1; }
    ASSUME(k >= 1 && k <= n);
    size_t off = (size_t) ((unsigned char *) b - buf);
    if (off > sizeof(buf) || off + k > sizeof(buf)) { bad = 4; return k; }
    for (size_t j = 0; j < sizeof(buf); ++j)
        if (j >= off && j < off + k) { unsigned char v = nd8(); buf[j] = v; src_[j] = v; touched[j] = 1; }
    delivered += k;
    return k;
}
ssize_t stub_read(int fd, void *b, size_t n) { if (fd != fd_open || n > MAXN) { bad = 3; } ASSUME(n <= MAXN); return rd(b, n); }
unsigned stub_sleep(unsigned s) { ++sleeps; return 0; }

void harness(void)
{
    unsigned long long n = nd8();
    ASSUME(n <= MAXN);
    for (int call = 0; call < CALLS; ++call) {
        for (size_t j = 0; j < sizeof(buf); ++j) { buf[j] = 0xA5; touched[j] = 0; }
        int r = randombytes(buf + GUARD, n);
        if (r == 0) {
            bool all = true, outside = true, intact = true;
            for (size_t j = 0; j < sizeof(buf); ++j) {
                bool in = j >= GUARD && j < GUARD + n;
                if (in) { all &= touched[j] != 0; intact &= buf[j] == src_[j]; } else outside &= touched[j] == 0 && buf[j] == 0xA5;
            }
            PROVE(all, "success only after every requested byte was delivered by the entropy source");
            PROVE(intact, "the returned bytes are the entropy source's bytes, unmodified");
            PROVE(outside, "nothing outside the requested range is written");
            REACH("success");
        }
        PROVE(!bad, "only /dev/urandom is opened, once, and only that descriptor is read");
    }
}
