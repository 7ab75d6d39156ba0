/* native replay of a recorded assignment: SX_REPLAY=<file> lines "name value";
 * SX_PARAMS=k=v,k=v; exit codes: 0 ok, 77 property violated, 78 assumption
 * failed / replay mismatch. */
#include "sx.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
static FILE *rf;
static char nm[256];
static int64_t next(char const *name, int64_t dflt, int64_t lo, int64_t hi)
{
    static int init;
    if (!init) { init = 1; char const *p = getenv("SX_REPLAY"); if (p) rf = fopen(p, "r"); }
    long long v;
    char *sp;
    if (rf && fgets(nm, sizeof nm, rf) && (sp = strrchr(nm, ' ')) != NULL) { /* names may contain spaces */
        *sp = 0; v = strtoll(sp + 1, NULL, 10); if (sp[1] != '-') v = (long long)strtoull(sp + 1, NULL, 10);
        if (strcmp(nm, name) != 0) { fprintf(stderr, "REPLAY-MISMATCH: want %s have %s\n", name, nm); exit(78); }
        return v;
    }
    (void)lo; (void)hi;
    return dflt;
}
int64_t sx_int(char const *n, int64_t lo, int64_t hi) { int64_t v = next(n, lo, lo, hi); if (v < lo || v > hi) { fprintf(stderr, "REPLAY-RANGE %s\n", n); exit(78);} return v; }
uint8_t sx_byte(char const *n) { return (uint8_t)next(n, 0, 0, 255); }
uint64_t sx_u64(char const *n) { return (uint64_t)next(n, 0, 0, 0); }
void sx_assume(int c) { if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); exit(78); } }
void sx_assert(int c, char const *m) { if (!c) { printf("SX-VIOLATION: %s\n", m); fprintf(stderr, "SX-VIOLATION: %s\n", m); fflush(0); _exit(77); } }
void sx_reach(char const *l) { if (getenv("SX_TRACE")) fprintf(stderr, "reach %s\n", l); }
int64_t sx_param(char const *n, int64_t d)
{
    char const *p = getenv("SX_PARAMS"); size_t l = strlen(n);
    while (p && *p) { if (!strncmp(p, n, l) && p[l] == '=') return atoll(p + l + 1); p = strchr(p, ','); if (p) p++; }
    return d;
}
int64_t sx_concretize(int64_t v) { return v; }
double sx_concretize_d(double v) { return v; }
static void okay(int s) { (void)s; _exit(0); }
static void okay0(void) { _exit(0); }
void sx_opt(char const *n, int64_t v) { if (!strcmp(n, "expectfail")) { signal(SIGABRT, v ? okay : SIG_DFL); if (v) atexit(okay0); } }
int sx_is_symbolic(int64_t v) { (void)v; return 0; }
void sx_end(void) { exit(0); }
void sx_note(char const *n, int64_t v) { if (getenv("SX_TRACE")) fprintf(stderr, "note %s=%lld\n", n, (long long)v); }
void sx_mute(int64_t v) { (void)v; }
void sx_vfile(char const *n, void const *d, size_t s)
{
    /* the replay driver starts us in a scratch directory */
    FILE *f = fopen(n, "wb"); if (!f) { perror(n); exit(78); }
    if (s) fwrite(d, 1, s, f); fclose(f);
}
extern void SX_ENTRY(void);
int main(void) { SX_ENTRY(); return 0; }
/* the replaceable functions (sx_io.h) */
#define SXIO_IMPL
#include "sx_io.h"
#define W __attribute__((weak))
W FILE *sxio_fopen(char const *n, char const *m) { return fopen(n, m); }
W int sxio_fclose(FILE *f) { return fclose(f); }
W size_t sxio_fread(void *d, size_t s, size_t n, FILE *f) { return fread(d, s, n, f); }
W size_t sxio_fwrite(void const *d, size_t s, size_t n, FILE *f) { return fwrite(d, s, n, f); }
W int sxio_feof(FILE *f) { return feof(f); }
W int sxio_ferror(FILE *f) { return ferror(f); }
W int sxio_fflush(FILE *f) { return fflush(f); }
W int sxio_vfprintf(FILE *f, char const *t, va_list v) { return vfprintf(f, t, v); }
W int sxio_fprintf(FILE *f, char const *t, ...) { va_list v; va_start(v, t); int r = vfprintf(f, t, v); va_end(v); return r; }
W int sxio_fputs(char const *t, FILE *f) { return fputs(t, f); }
W int sxio_fputc(int c, FILE *f) { return fputc(c, f); }
W void sxio_exit(int c) { exit(c); }
W void sxio_abort(void) { abort(); }
W void *sxio_malloc(size_t n) { return malloc(n); }
W void *sxio_calloc(size_t n, size_t s) { return calloc(n, s); }
W void *sxio_realloc(void *p, size_t n) { return realloc(p, n); }
