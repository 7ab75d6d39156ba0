/* an output stream that keeps the numbers written as numbers (they may be symbolic): the text
 * is split into words, punctuation, and numbers */
#pragma once
#include <stdarg.h>
#include <ctype.h>
#include <hob3lbase/stream.h>
typedef struct { int num; double v; int prec; int s; /* index of word */ } tok_t;
static tok_t *TK; static int ntk, mtk; static char *words; static int nwords, mwords; static char curw[512]; static int ncur; /* TK, words: allocated by cap_size() */
#define MAXTOK 40000
#define MAXTOK_BIG 6000000
static char const *PUNCT = "()[]{},;:='";
static void cap_flush(void)
{
    if (!ncur) return; curw[ncur] = 0; char *e; double d = 0; char c = curw[0]; int num = 0;
    if ((c >= '0' && c <= '9') || ((c == '-' || c == '.' || c == '+') && curw[1] >= '0' && curw[1] <= '9')) { d = strtod(curw, &e); num = *e == 0; }
    CHECK(ntk < mtk && nwords + ncur + 1 < mwords, "capture buffer is full");
    tok_t *t = &TK[ntk++]; t->num = num; t->v = d; t->prec = 17; t->s = nwords; memcpy(words + nwords, curw, (size_t)ncur + 1); nwords += ncur + 1; ncur = 0;
}
static int cap_quote; /* inside of a quoted string: one word */
static void cap_ch(char c)
{
    if (c == '"') { if (ncur < (int)sizeof curw - 1) curw[ncur++] = c; cap_quote = !cap_quote; return; }
    if (cap_quote) { if (ncur < (int)sizeof curw - 1) curw[ncur++] = c; return; }
    if (c == ' ' || c == '\n' || c == '\t' || c == '\r') { cap_flush(); return; }
    if (strchr(PUNCT, c)) { cap_flush(); curw[ncur++] = c; cap_flush(); return; }
    if (ncur < (int)sizeof curw - 1) curw[ncur++] = c;
}
static void cap_num(double v, int prec)
{
    if (ncur && !(ncur == 1 && curw[0] == '-')) cap_flush(); int neg = ncur; ncur = 0; if (neg) v = -v;
    CHECK(ntk < mtk, "capture buffer is full"); tok_t *t = &TK[ntk++]; t->num = 1; t->v = v; t->prec = prec; t->s = -1;
}
static void cap_dbl(double v, int prec, int conv)
{
    long long bits; memcpy(&bits, &v, 8);
    if (prec < 15 && !sx_is_symbolic(bits)) { char f[16], b[64]; snprintf(f, sizeof f, "%%.%d%c", prec, conv); snprintf(b, sizeof b, f, v); v = strtod(b, NULL); prec = 17; }
    cap_num(v, prec);
}
static void cap_vprintf(void *data, char const *f, va_list va)
{
    (void)data;
    for (; *f; f++) {
        if (*f != '%') { cap_ch(*f); continue; }
        f++; int left = 0, width = -1, prec = -1, lng = 0; 
        for (; *f == '-' || *f == '+' || *f == ' ' || *f == '#' || *f == '0'; f++) left = 1; (void)left;
        if (*f == '*') { width = va_arg(va, int); f++; } else for (; *f >= '0' && *f <= '9'; f++) width = (width < 0 ? 0 : width) * 10 + (*f - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(va, int); f++; } else for (; *f >= '0' && *f <= '9'; f++) prec = prec * 10 + (*f - '0'); }
        for (; *f == 'l' || *f == 'z' || *f == 'h' || *f == 't' || *f == 'j'; f++) lng += *f == 'l' || *f == 'z' || *f == 't' || *f == 'j';
        switch (*f) {
        case '%': cap_ch('%'); break;
        case 'c': cap_ch((char)va_arg(va, int)); break;
        case 'd': case 'i': { long v = lng ? va_arg(va, long) : va_arg(va, int); cap_num((double)v, 17); break; }
        case 'u': { unsigned long v = lng ? va_arg(va, unsigned long) : va_arg(va, unsigned); cap_num((double)v, 17); break; }
        case 'x': { unsigned long v = lng ? va_arg(va, unsigned long) : va_arg(va, unsigned); char b[32]; snprintf(b, sizeof b, "%lx", v); int n = (int)strlen(b); for (int i = n; i < width; i++) cap_ch('0'); for (char *q = b; *q; q++) cap_ch(*q); break; }
        case 's': { char const *s = va_arg(va, char const *); for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) cap_ch(s[i]); if (width > 0) cap_ch(' '); break; }
        case 'g': case 'f': case 'e': cap_dbl(va_arg(va, double), prec < 0 ? 6 : prec, *f); break;
        default: CHECK(0, "unknown conversion in an output");
        }
    }
}
static unsigned char bin_[40000]; static size_t nbin;
static void cap_write(void *data, void const *buff, size_t n) { (void)data; CHECK(nbin + n <= sizeof bin_, "capture buffer is full"); memcpy(bin_ + nbin, buff, n); nbin += n; }
static cp_stream_t cap = { NULL, cap_vprintf, cap_write };
static void cap_size(int n) { mtk = n; mwords = n * 3; TK = malloc((size_t)mtk * sizeof *TK); words = malloc((size_t)mwords); }
static void cap_reset(void) { if (!TK) cap_size(MAXTOK); ntk = nwords = ncur = 0; nbin = 0; cap_quote = 0; }
/* reading back */
static int rp; static int rbad;
static int at(char const *w) { return rp < ntk && !TK[rp].num && !strcmp(words + TK[rp].s, w); }
static int opt_(char const *w) { if (at(w)) { rp++; return 1; } return 0; }
static void need(char const *w) { if (!opt_(w)) { D("expected %s at %d, found %s (%g)\n", w, rp, rp < ntk && TK[rp].s >= 0 ? words + TK[rp].s : "", rp < ntk ? TK[rp].v : 0); rbad = 1; } }
static double num(void) { if (rp < ntk && TK[rp].num) return TK[rp++].v; D("expected a number at %d\n", rp); rbad = 1; return 0; }
static void read_start(void) { cap_flush(); rp = 0; rbad = 0; }
