/* C library model, interpreted symbolically together with the code under
 * test.  Only functions whose behaviour the code depends on. */
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
typedef struct { char const *name; unsigned char const *data; size_t n, pos; int used, err, eof; } VF;
extern void *malloc(size_t);
extern double sxl_strtod_conc(char const *);
extern int64_t sx_concretize(int64_t);
extern int *__errno_location(void);

size_t strlen(char const *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(char const *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(char const *a, char const *b)
{ for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(char const *a, char const *b, size_t n)
{ for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int strcasecmp(char const *a, char const *b)
{ for (;; a++, b++) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncasecmp(char const *a, char const *b, size_t n)
{ for (; n; a++, b++, n--) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strchr(char const *s, int c)
{ for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char *strrchr(char const *s, int c)
{ char const *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char *strstr(char const *h, char const *n)
{ size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
size_t strspn(char const *s, char const *set)
{ size_t n = 0; for (; s[n]; n++) { char const *q = set; while (*q && *q != s[n]) q++; if (!*q) break; } return n; }
size_t strcspn(char const *s, char const *set)
{ size_t n = 0; for (; s[n]; n++) { char const *q = set; while (*q && *q != s[n]) q++; if (*q) break; } return n; }
void *memchr(void const *s, int c, size_t n)
{ unsigned char const *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void*)p; return 0; }
int memcmp(void const *a, void const *b, size_t n)
{ unsigned char const *p = a, *q = b; for (; n; n--, p++, q++) if (*p != *q) return *p < *q ? -1 : 1; return 0; }
/* equality only: no early exit, one decision */
int bcmp(void const *a, void const *b, size_t n)
{ unsigned char const *p = a, *q = b; unsigned r = 0; for (size_t i = 0; i < n; i++) r |= (unsigned)(p[i] ^ q[i]); return (int)r; }
char *strcpy(char *d, char const *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strdup(char const *s) { size_t n = strlen(s) + 1; char *r = malloc(n); for (size_t i = 0; i < n; i++) r[i] = s[i]; return r; }

/* insertion sort on an index permutation: total order comparators give the
 * same result as any other sorting algorithm up to equal elements */
void qsort_r(void *base, size_t n, size_t sz, int (*cmp)(void const *, void const *, void *), void *u)
{
    unsigned char *b = base;
    unsigned char *t = malloc(sz ? sz : 1);
    for (size_t i = 1; i < n; i++) {
        for (size_t k = 0; k < sz; k++) t[k] = b[i*sz+k];
        size_t j = i;
        while (j > 0 && cmp(b + (j-1)*sz, t, u) > 0) {
            __builtin_memcpy(b + j*sz, b + (j-1)*sz, sz);
            j--;
        }
        __builtin_memcpy(b + j*sz, t, sz);
    }
    extern void free(void *); free(t);
}
static int (*sxl_qc)(void const*, void const*);
static int sxl_q2(void const *a, void const *b, void *u) { (void)u; return sxl_qc(a, b); }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(void const *, void const *)) { sxl_qc = cmp; qsort_r(base, n, sz, sxl_q2, 0); }

static bool isd(char c) { return c >= '0' && c <= '9'; }
static bool issp(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int hexv(char c) { if (isd(c)) return c - '0'; int l = lc((unsigned char)c); if (l >= 'a' && l <= 'z') return l - 'a' + 10; return 99; }
static double const p10[23] = {1e0,1e1,1e2,1e3,1e4,1e5,1e6,1e7,1e8,1e9,1e10,1e11,1e12,1e13,1e14,1e15,1e16,1e17,1e18,1e19,1e20,1e21,1e22};
static double conc(char const *a, char const *e)
{
    static char buf[512]; size_t n = (size_t)(e - a); if (n > 500) n = 500;
    for (size_t i = 0; i < n; i++) buf[i] = (char)sx_concretize(a[i]);
    buf[n] = 0; return sxl_strtod_conc(buf);
}
double strtod(char const *s, char **end)
{
    char const *p = s; while (issp(*p)) p++;
    char const *st = p; bool neg = false;
    if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    /* inf / nan / hex */
    if (lc(*p) == 'i' && lc(p[1]) == 'n' && lc(p[2]) == 'f') {
        p += 3; char const *w = "inity"; int k = 0; while (w[k] && lc(p[k]) == w[k]) k++; if (!w[k]) p += 5;
        if (end) *end = (char*)p; return neg ? -__builtin_inf() : __builtin_inf();
    }
    if (lc(*p) == 'n' && lc(p[1]) == 'a' && lc(p[2]) == 'n') {
        p += 3; if (*p == '(') { char const *q = p + 1; while (isd(*q) || *q == '_' || hexv(*q) < 36) q++; if (*q == ')') p = q + 1; }
        if (end) *end = (char*)p; return __builtin_nan("");
    }
    if (*p == '0' && lc(p[1]) == 'x' && (hexv(p[2]) < 16 || (p[2] == '.' && hexv(p[3]) < 16))) {
        p += 2; while (hexv(*p) < 16) p++; if (*p == '.') { p++; while (hexv(*p) < 16) p++; }
        if (lc(*p) == 'p') { char const *q = p + 1; if (*q == '-' || *q == '+') q++; if (isd(*q)) { while (isd(*q)) q++; p = q; } }
        if (end) *end = (char*)p; return conc(st, p);
    }
    int64_t m = 0; int nd = 0, any = 0, sig = 0; int e10 = 0; 
    while (isd(*p)) { if (nd < 17) m = m * 10 + (*p - '0'); nd += (nd > 0 || *p != '0'); sig++; any = 1; p++; }
    if (*p == '.') {
        char const *q = p + 1; int f = 0;
        if (any || isd(*q)) { p = q; while (isd(*p)) { if (nd < 17) m = m * 10 + (*p - '0'); nd += (nd > 0 || *p != '0'); f++; any = 1; p++; } e10 -= f; }
    }
    if (!any) { if (end) *end = (char*)s; return 0; }
    if (lc(*p) == 'e') {
        char const *q = p + 1; bool en = false; if (*q == '-') { en = true; q++; } else if (*q == '+') q++;
        if (isd(*q)) { int x = 0; while (isd(*q)) { if (x < 100000) x = x * 10 + (*q - '0'); q++; } p = q; e10 += en ? -x : x; }
    }
    if (end) *end = (char*)p;
    if (nd > 15 || e10 > 22 || e10 < -22) { double r = conc(st, p); double a = r < 0 ? -r : r; if (a > 1.7976931348623157e308 || (a != 0 && a < 2.2250738585072014e-308)) *__errno_location() = 34; else if (a == 0 && m != 0) *__errno_location() = 34; return r; }
    double r = (double)m; if (e10 > 0) r *= p10[e10]; else if (e10 < 0) r /= p10[-e10];
    return neg ? -r : r;
}
float strtof(char const *s, char **e) { return (float)strtod(s, e); }
static unsigned long long stoull(char const *s, char **end, int base, bool *negp, bool *ovf)
{
    char const *p = s; while (issp(*p)) p++;
    bool neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && *p == '0' && lc(p[1]) == 'x' && hexv(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0; int n = 0; bool o = false;
    while (hexv(*p) < base) { unsigned d = (unsigned)hexv(*p); if (n >= 15) { unsigned long long t; if (__builtin_mul_overflow(v, (unsigned long long)base, &t) || __builtin_add_overflow(t, d, &t)) o = true; else v = t; } else v = v * (unsigned)base + d; n++; p++; }
    if (end) *end = (char*)(n ? p : s); *negp = neg; *ovf = o; return v;
}
unsigned long long strtoull(char const *s, char **e, int b) { bool n, o; unsigned long long v = stoull(s, e, b, &n, &o); if (o) { *__errno_location() = 34; return ~0ull; } return n ? 0 - v : v; }
unsigned long strtoul(char const *s, char **e, int b) { return strtoull(s, e, b); }
long long strtoll(char const *s, char **e, int b) { bool n, o; unsigned long long v = stoull(s, e, b, &n, &o); if (n ? (o || v > 0x8000000000000000ull) : (o || v > 0x7fffffffffffffffull)) { *__errno_location() = 34; return n ? (-0x7fffffffffffffffll - 1) : 0x7fffffffffffffffll; } return n ? (long long)(0 - v) : (long long)v; }
long strtol(char const *s, char **e, int b) { return strtoll(s, e, b); }
int atoi(char const *s) { return (int)strtol(s, 0, 10); }
int rand(void) { static unsigned x = 1; x = x * 1103515245u + 12345u; return (int)(x >> 1 & 0x7fffffff); }

static VF vfs[16]; static int nvf;
void sx_vfile(char const *name, void const *data, size_t n) { vfs[nvf].name = name; vfs[nvf].data = data; vfs[nvf].n = n; nvf++; }
void *fopen64(char const *name, char const *mode) { (void)mode; for (int i = 0; i < nvf; i++) if (!strcmp(vfs[i].name, name)) { vfs[i].pos = 0; vfs[i].eof = vfs[i].err = 0; return &vfs[i]; } *__errno_location() = 2; return 0; }
void *fopen(char const *name, char const *mode) { return fopen64(name, mode); }
int fclose(void *f) { (void)f; return 0; }
size_t fread(void *d, size_t sz, size_t n, void *fv) { VF *f = fv; size_t want = sz * n; if (want > f->n - f->pos) { want = f->n - f->pos; f->eof = 1; } __builtin_memcpy(d, f->data + f->pos, want); f->pos += want; return sz ? want / sz : 0; }
int feof(void *fv) { return ((VF*)fv)->eof; }
int ferror(void *fv) { (void)fv; return 0; }
size_t fwrite(void const *d, size_t sz, size_t n, void *f) { (void)d; (void)f; (void)sz; return n; }
char *strerror(int e) { (void)e; return "error"; }
char *getenv(char const *n) { (void)n; return 0; }
/* the replaceable functions (sx_io.h) */
extern void exit(int) __attribute__((noreturn)); extern void abort(void) __attribute__((noreturn));
#define W __attribute__((weak))
W void *sxio_fopen(char const *n, char const *m) { return fopen64(n, m); }
W int sxio_fclose(void *f) { return fclose(f); }
W size_t sxio_fread(void *d, size_t s, size_t n, void *f) { return fread(d, s, n, f); }
W size_t sxio_fwrite(void const *d, size_t s, size_t n, void *f) { return fwrite(d, s, n, f); }
W int sxio_feof(void *f) { return feof(f); }
W int sxio_ferror(void *f) { return ferror(f); }
W int sxio_fflush(void *f) { (void)f; return 0; }
W int sxio_vfprintf(void *f, char const *t, __builtin_va_list v) { (void)f; (void)t; (void)v; return 0; }
W int sxio_fprintf(void *f, char const *t, ...) { (void)f; (void)t; return 0; }
W int sxio_fputs(char const *t, void *f) { (void)f; (void)t; return 0; }
W int sxio_fputc(int c, void *f) { (void)f; return c; }
W __attribute__((noreturn)) void sxio_exit(int c) { exit(c); }
W __attribute__((noreturn)) void sxio_abort(void) { abort(); }
extern void *calloc(size_t, size_t); extern void *realloc(void *, size_t);
W void *sxio_malloc(size_t n) { return malloc(n); }
W void *sxio_calloc(size_t n, size_t s) { return calloc(n, s); }
W void *sxio_realloc(void *p, size_t n) { return realloc(p, n); }
