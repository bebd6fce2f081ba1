/* An in-memory stdio for the text code: bounded buffer, write faults, and small printf/scanf covering the conversions such code uses.
 * The same stand-ins serve the symbolic run and the native replay. */
#include <stdarg.h>
#ifndef TXT
#define TXT 16384
#endif
struct vio { unsigned char b[TXT]; size_t n, r; long fail_at, wcalls; int eof, err; };
static struct vio vio_f;
#define VIO(f) ((struct vio *) (f))
/* one write call; fails (and writes nothing) when it is the fail_at-th */
static int w_begin(struct vio *f) { return f->fail_at == f->wcalls++ ? (f->err = 1, 0) : 1; }
static void w1(struct vio *f, int c) { if (f->n < TXT) f->b[f->n] = (unsigned char) c; f->n++; }
int stub_fputc(int c, FILE *F) { if (!w_begin(VIO(F))) return -1; w1(VIO(F), c); return (unsigned char) c; }
int stub_fputs(const char *s, FILE *F) { if (!w_begin(VIO(F))) return -1; while (*s) w1(VIO(F), *s++); return 1; }
size_t stub_fwrite(const void *p, size_t sz, size_t n, FILE *F) { if (!w_begin(VIO(F))) return 0; for (size_t k = 0; k < sz*n; ++k) w1(VIO(F), ((const unsigned char *) p)[k]); return n; }
static int hexd(unsigned v, int up) { return '0' + (int) v + (int) (-(unsigned) (v > 9) & (unsigned) ((up ? 'A' : 'a') - '0' - 10)); }
static int vpf(struct vio *f, char *dst, size_t cap, const char *s, va_list ap)
{
    int cnt = 0;
#define OUT(c) do { int oc = (c); if (f) w1(f, oc); else if ((size_t) cnt + 1 < cap) dst[cnt] = (char) oc; ++cnt; } while (0)
    for (; *s; ++s) {
        if (*s != '%') { OUT(*s); continue; }
        ++s; if (*s == '%') { OUT('%'); continue; }
        int zero = 0, width = 0, h = 0, l = 0; while (*s == '0' || *s == '#' || *s == '-' || *s == '+') { if (*s == '0') zero = 1; ++s; }
        while (*s >= '0' && *s <= '9') width = width*10 + (*s++ - '0');
        while (*s == 'h') ++h, ++s; while (*s == 'l' || *s == 'z') ++l, ++s;
        if (*s == 'x' || *s == 'X') {
            unsigned long v = l ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (h == 2) v = (unsigned char) v; else if (h == 1) v = (unsigned short) v;
            if (h == 2 && width == 2 && zero) { OUT(hexd((unsigned) (v >> 4) & 15, *s == 'X')); OUT(hexd((unsigned) v & 15, *s == 'X')); }
            else { int nd = 1; for (int k = 1; k < 16; ++k) if (v >> 4*k) nd = k + 1; for (int k = nd; k < width; ++k) OUT(zero ? '0' : ' '); for (int k = nd; k-- > 0; ) OUT(hexd((unsigned) (v >> 4*k) & 15, *s == 'X')); }
        } else if (*s == 'd' || *s == 'i' || *s == 'u') {
            long v = l ? va_arg(ap, long) : va_arg(ap, int); if (h == 2) v = (signed char) v; if (*s != 'u' && v < 0) { OUT('-'); v = -v; }
            char t[24]; int k = 0; do { t[k++] = (char) ('0' + v % 10); v /= 10; } while (v); for (int j = k; j < width; ++j) OUT(zero ? '0' : ' '); while (k) OUT(t[--k]);
        } else if (*s == 'c') OUT(va_arg(ap, int));
        else if (*s == 's') { const char *q = va_arg(ap, const char *); while (*q) OUT(*q++); }
        else return -1;
    }
    if (!f && cap) dst[(size_t) cnt < cap ? (size_t) cnt : cap - 1] = 0;
    return cnt;
}
int stub_fprintf(FILE *F, const char *s, ...) { if (!w_begin(VIO(F))) return -1; va_list ap; va_start(ap, s); int r = vpf(VIO(F), 0, 0, s, ap); va_end(ap); return r; }
int stub_snprintf(char *d, size_t n, const char *s, ...) { va_list ap; va_start(ap, s); int r = vpf(0, d, n, s, ap); va_end(ap); return r; }
int stub_sprintf(char *d, const char *s, ...) { va_list ap; va_start(ap, s); int r = vpf(0, d, 1 << 20, s, ap); va_end(ap); return r; }
static int r1(struct vio *f) { if (f->r >= f->n) { f->eof = 1; return -1; } return f->b[f->r++]; }
int stub_fgetc(FILE *F) { return r1(VIO(F)); }
int stub_ungetc(int c, FILE *F) { if (c != -1) VIO(F)->r--; return c; }
int stub_feof(FILE *F) { return VIO(F)->eof; }
int stub_ferror(FILE *F) { return VIO(F)->err; }
int stub_fflush(FILE *F) { return 0; }
size_t stub_fread(void *p, size_t sz, size_t n, FILE *F) { size_t k; for (k = 0; k < sz*n; ++k) { int c = r1(VIO(F)); if (c < 0) break; ((unsigned char *) p)[k] = (unsigned char) c; } return sz ? k/sz : 0; }
char *stub_fgets(char *d, int n, FILE *F) { int k = 0; while (k + 1 < n) { int c = r1(VIO(F)); if (c < 0) break; d[k++] = (char) c; if (c == '\n') break; } if (!k) return 0; d[k] = 0; return d; }
static int sp(int c) { return (c == ' ') | ((unsigned) c - 9 < 5); }
static unsigned dv(int c) { unsigned d = (unsigned) c - '0', l = (unsigned) (c | 32) - 'a'; unsigned md = -(unsigned) (d < 10), ml = -(unsigned) (l < 6); return (md & d) | (~md & ml & (l + 10)) | (~md & ~ml & 99); }
static void skipws(struct vio *f) { while (f->r < f->n && sp(f->b[f->r])) f->r++; }
int stub_fscanf(FILE *F, const char *s, ...)
{
    struct vio *f = VIO(F); int cnt = 0; va_list ap; va_start(ap, s);
    for (; *s; ++s) {
        if (sp((unsigned char) *s)) { skipws(f); continue; }
        if (*s != '%') { if (f->r >= f->n) { if (!cnt) cnt = -1; break; } if (f->b[f->r] != (unsigned char) *s) break; f->r++; continue; }
        ++s; int width = 0, h = 0, l = 0; while (*s >= '0' && *s <= '9') width = width*10 + (*s++ - '0'); while (*s == 'h') ++h, ++s; while (*s == 'l' || *s == 'z') ++l, ++s;
        if (*s == 'c') { char *d = va_arg(ap, char *); int k, m = width ? width : 1; for (k = 0; k < m && f->r < f->n; ++k) d[k] = (char) f->b[f->r++]; if (k < m) { if (!cnt) cnt = -1; break; } ++cnt; continue; }
        if (*s == 'd' || *s == 'i' || *s == 'u' || *s == 'x' || *s == 'X') {
            skipws(f); if (f->r >= f->n) { if (!cnt) cnt = -1; break; }
            unsigned base = (*s | 32) == 'x' ? 16 : 10; int neg = 0, nd = 0, m = width ? width : 1000; long v = 0;
            if (m > 1 && (f->b[f->r] == '-' || f->b[f->r] == '+')) { neg = f->b[f->r] == '-'; f->r++; --m; }
            if (base == 16 && m > 2 && f->r + 1 < f->n && f->b[f->r] == '0' && (f->b[f->r+1] | 32) == 'x') { f->r += 2; m -= 2; }
            while (m > 0 && f->r < f->n) { unsigned d = dv(f->b[f->r]); if (d >= base) break; v = v*(long) base + (long) d; ++nd; --m; f->r++; }
            if (!nd) break;
            if (neg) v = -v; void *d = va_arg(ap, void *);
            if (h == 2) *(signed char *) d = (signed char) v; else if (h == 1) *(short *) d = (short) v; else if (l) *(long *) d = v; else *(int *) d = (int) v;
            ++cnt; continue;
        }
        break;
    }
    va_end(ap); return cnt;
}
#define VIO_STUBS "fputc fputs fwrite fprintf snprintf sprintf fgetc ungetc feof ferror fflush fread fgets fscanf"
