/* C19: STL import, text and binary */
#include "common.h"
#include <stdio.h>
#include <math.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/pool.h>
#include <hob3l/syn.h>
#include <hob3l/syn_tam.h>
#include <hob3l/csg3.h>
#include <hob3l/csg3_tam.h>
#include <hob3l/stl-parse.h>
#ifdef DBG
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) ((void)0)
#endif
#define EPS 0x1p-15
static unsigned char *S; static int N, P;
/* ---- reference reader on the immutable bytes ---- */
#define MAXV 90
static int nf, nv; static int floc[MAXV], vloc[3 * MAXV], ploc[3 * MAXV]; static double vv[3 * MAXV][3];
enum { EOFT, ERR, ID, NUM, OTHER };
static int tt, ts, tl, glue;
static int c(int i) { return i < N ? S[i] : -1; }
static bool dig(int x) { return x >= '0' && x <= '9'; }
static bool alp(int x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); }
static double num;
static void next(void)
{
    while (c(P) == ' ' || c(P) == '\t' || c(P) == '\r' || c(P) == '\n') P++;
    int x = c(P); ts = P; bool isn = x == '+' || x == '-' || x == '.' || dig(x);
    if (x == -1) { tt = EOFT; return; }
    if ((isn || alp(x)) && glue == P) { tt = ERR; return; }
    if (alp(x)) { tt = ID; while (alp(c(P))) P++; tl = P - ts; glue = P; return; }
    if (!isn) { tt = OTHER; return; }
    char b[64]; int m = 0, d = 0, e = 1;
    if (x == '+' || x == '-') { if (x == '-') b[m++] = '-'; P++; }
    while (dig(c(P)) && m < 60) { b[m++] = (char)c(P++); d++; }
    if (c(P) == '.') { b[m++] = '.'; P++; while (dig(c(P)) && m < 60) { b[m++] = (char)c(P++); d++; } }
    if (c(P) == 'e' || c(P) == 'E') { e = 0; b[m++] = 'e'; P++; if (c(P) == '-' || c(P) == '+') b[m++] = (char)c(P++); while (dig(c(P)) && m < 60) { b[m++] = (char)c(P++); e++; } }
    glue = P; b[m] = 0; tt = NUM; if (d == 0 || e == 0) { tt = ERR; return; }
    num = strtod(b, NULL); if (!isfinite(num)) tt = ERR;
}
static bool kw(char const *w)
{
    int n = (int)strlen(w); if (tt != ID || tl != n) return false;
    for (int i = 0; i < n; i++) if (S[ts + i] != (unsigned char)w[i]) return false;
    next(); return true;
}
static bool line(void) { while (c(P) != -1 && c(P) != 0 && c(P) != '\n') P++; return c(P) != 0; }
static bool rtext(void)
{
    P = 0; glue = -1; next(); 
    if (tt != ID || tl != 5) return false;
    if (!line()) return false;
    next();
    for (;;) {
        int l = ts; if (!kw("facet")) break;
        if (!kw("normal")) return false;
        for (int i = 0; i < 3; i++) { if (tt != NUM) return false; next(); }
        if (!kw("outer") || !kw("loop")) return false;
        floc[nf++] = l;
        for (int i = 0; i < 3; i++) {
            vloc[nv] = ts; if (!kw("vertex")) return false;
            ploc[nv] = ts; for (int j = 0; j < 3; j++) { if (tt != NUM) return false; vv[nv][j] = num; next(); }
            nv++;
        }
        if (!kw("endloop") || !kw("endfacet")) return false;
    }
    if (tt != ID || tl != 8 || memcmp(S + ts, "endsolid", 8) != 0) return false;
    if (!line()) return false;
    next(); return tt == EOFT;
}
static float f4(int o) { unsigned u = S[o] | (unsigned)S[o + 1] << 8 | (unsigned)S[o + 2] << 16 | (unsigned)S[o + 3] << 24; float f; memcpy(&f, &u, 4); return f; }
static bool rbin(void)
{
    unsigned long k = S[80] | (unsigned long)S[81] << 8 | (unsigned long)S[82] << 16 | (unsigned long)S[83] << 24;
    if (k != (unsigned long)(N - 84) / 50) return false;
    for (int i = 0, o = 84; o < N; i++, o += 50) {
        floc[nf++] = o;
        for (int j = 0; j < 3; j++, nv++) { vloc[nv] = ploc[nv] = o + 12 + 12 * j; for (int d = 0; d < 3; d++) { float f = f4(o + 12 + 12 * j + 4 * d); if (!isfinite(f)) return false; vv[nv][d] = f; } }
    }
    return true;
}
static cp_syn_input_t in; static cp_err_t er; static cp_syn_file_t *file; static char *F;
static void run(void)
{
    memset(&in, 0, sizeof in); memset(&er, 0, sizeof er); file = calloc(1, sizeof *file); cp_pool_t tmp; cp_pool_init(&tmp);
    sx_vfile("f.stl", S, N); CHECK(cp_syn_read(file, &er, &in, NULL, "f.stl", NULL), "reading failed"); F = file->content.data;
    cp_csg3_poly_t *r = calloc(1, sizeof *r);
    nf = nv = 0; bool rok = false;
    bool txt = N >= 5 && memcmp(S, "solid", 5) == 0, bin = !txt && N >= 84 && (N - 84) % 50 == 0;
    if (txt) rok = rtext(); else if (bin) rok = rbin();
    bool ok = cp_stl_parse(&tmp, &er, &in, r, file);
    D("ok %d ref %d n %d facets %d/%zu msg %s\n", ok, rok, N, nf, r->face.size, er.msg.size ? er.msg.data : "");
    CHECK(ok == rok, rok ? "well-formed file rejected" : "malformed file accepted");
    if (!ok) { CHECK(er.msg.size > 0, "error without a message"); CHECK(er.loc != NULL && er.loc >= F && er.loc <= F + N, "error location outside the file"); sx_reach("error"); return; }
    CHECK(er.msg.size == 0, "message without an error"); CHECK((int)r->face.size == nf, "wrong number of facets");
    /* corners are one point iff their coordinates agree up to the documented comparison epsilon 2^-15; chains of such near corners may be joined in any way */
    bool amb = false; int id[3 * MAXV], np = 0, first[3 * MAXV];
    for (int i = 0; i < nv; i++) {
        int k = -1; for (int q = 0; q < i; q++) { bool far = false, near = false; for (int d = 0; d < 3; d++) { double e = fabs(vv[q][d] - vv[i][d]); far |= e >= EPS; near |= e > 0; } if (!far) { if (near) amb = true; if (k < 0) k = id[q]; } else if (near) for (int d = 0; d < 3; d++) amb |= vv[q][d] != vv[i][d] && fabs(vv[q][d] - vv[i][d]) < EPS; }
        if (k < 0) { k = np; first[np++] = i; } id[i] = k;
    }
    bool bad = false, badl = false;
    if (amb) { CHECK((int)r->point.size <= nv, "too many points"); sx_reach("near corners"); }
    else {
        CHECK((int)r->point.size == np, "equal corners are not exactly one point each");
        for (int k = 0; k < np; k++) { cp_vec3_loc_t *q = &r->point.data[k]; for (int d = 0; d < 3; d++) bad |= !(q->coord.v[d] == vv[first[k]][d]); badl |= q->loc != F + ploc[first[k]]; }
        CHECK(!bad, "a point has the wrong coordinates"); CHECK(!badl, "a point has a wrong location");
    }
    for (int i = 0; i < nf; i++) {
        cp_csg3_face_t *f = &r->face.data[i]; CHECK(f->point.size == 3, "facet without three corners"); badl |= f->loc != F + floc[i];
        for (int j = 0; j < 3; j++) {
            cp_vec3_loc_ref_t *q = &f->point.data[2 - j]; size_t pi = (size_t)(q->ref - r->point.data); CHECK(pi < r->point.size && q->ref == &r->point.data[pi], "corner refers to no point"); badl |= q->loc != F + vloc[3 * i + j];
            if (!amb) bad |= (int)pi != id[3 * i + j];
            for (int d = 0; d < 3; d++) bad |= !(fabs(q->ref->coord.v[d] - vv[3 * i + j][d]) < EPS);
        }
    }
    CHECK(!bad, "a facet has wrong corners or orientation"); CHECK(!badl, "a facet or corner has a wrong location");
    sx_reach(nf ? "facets" : "empty");
}
static char const TEXT[] = "solid a b\nfacet normal 0 -1 +.5\nouter loop\nvertex 1 2.5 -3e1\n vertex 0 0 0\tvertex 1 0 0\r\nendloop endfacet\nfacet normal 0 0 0 outer loop vertex 0 0 0 vertex 1 2.5 -30 vertex 4 5 6 endloop endfacet endsolid a b\n \n";
/* a file using everything, one byte replaced (and a near one), inserted, removed, or cut off */
void h_mutate(void)
{
    int n = (int)sizeof TEXT - 1, how = ch("how", 0, 3), p = ch("at", 5, n - 1); S = malloc(n + 2); memcpy(S, TEXT, n); N = n;
    if (how == 0) { S[p] = sx_byte("byte"); int d = ch("then", 0, (int)sx_param("then", 1)); if (d && p + d < N) S[p + d] = sx_byte("byte"); }
    else if (how == 1) { memmove(S + p + 1, S + p, n - p); S[p] = sx_byte("byte"); N++; }
    else if (how == 2) { memmove(S + p, S + p + 1, n - p - 1); N--; }
    else N = p;
    run();
}
/* any bytes in the places where something is expected */
static char const *const TM[][2] = {
    { "", "" }, { "solid", "facet normal 0 0 0 outer loop vertex 0 0 1 vertex 0 1 0 vertex 1 0 0 endloop endfacet endsolid" }, { "solid\n", "endsolid" }, { "solid x\nfacet normal 0 0 ", " outer loop vertex 0 0 1 vertex 0 1 0 vertex 1 0 0 endloop endfacet\nendsolid x" },
    { "solid x\nfacet normal 0 0 0 outer loop vertex 1 2 ", " vertex 0 1 0 vertex 1 0 0 endloop endfacet\nendsolid x" }, { "solid x\nendsolid", "" }, { "solid x\nendsolid y", "solid x\n" }, { "solid\nfacet normal 0 0 0 outer loop vertex 0 0 1 vertex 0 1 0 vertex 1 0 0 ", "endloop endfacet endsolid" },
    { "solid\nfacet normal 0 0 0 outer loop vertex 0 0 1 vertex 0 1 0 vertex 1 0", "" }, { "solid\nendsoli", "\n" } };
void h_text(void)
{
    int t = ch("context", 0, (int)(sizeof TM / sizeof *TM) - 1), n = ch("n", 0, (int)sx_param("n", 3)), a = (int)strlen(TM[t][0]), b = (int)strlen(TM[t][1]); N = a + n + b; S = malloc(N + 1);
    memcpy(S, TM[t][0], a); for (int i = 0; i < n; i++) S[a + i] = sx_byte("byte"); memcpy(S + a + n, TM[t][1], b); run();
}
/* which corners become one point */
static int put(char const *s) { int n = (int)strlen(s); memcpy(S + N, s, n); N += n; return n; }
void h_points(void)
{
    int n = ch("facets", 1, (int)sx_param("facets", 2)), R = (int)sx_param("R", 1); S = malloc(4096); N = 0; put("solid t\n"); int free = (int)sx_param("free", 5);
    for (int i = 0; i < n; i++) {
        put("facet normal 0 0 0 outer loop\n");
        for (int j = 0; j < 3; j++) { put("vertex "); for (int d = 0; d < 3; d++) { if (3 * i + j < free) S[N++] = (unsigned char)sx_int("digit", '0', '0' + R); else S[N++] = '0' + (unsigned char)((i + j * d) % (R + 1)); put(d == 1 ? ".0 " : " "); } put("\n"); }
        put("endloop endfacet\n");
    }
    put("endsolid t\n"); run();
}
/* binary files */
static void f32(unsigned char *p, float f) { memcpy(p, &f, 4); }
void h_bin(void)
{
    int k = ch("facets", 0, (int)sx_param("facets", 3)), cut = ch("cut", 0, 4), w = ch("where", 0, 6); int sz[] = { 0, 1, -1, 49, -50 }; N = 84 + 50 * k + sz[cut]; if (N < 0) sx_end(); S = malloc(84 + 50 * k + 50); memset(S, ' ', 84 + 50 * k + 50);
    for (int i = 0; i < k; i++) for (int j = 0; j < 12; j++) f32(S + 84 + 50 * i + 4 * j, (float)((i * 7 + j * (j + i)) % 5) - 1.5f);
    S[80] = (unsigned char)k; S[81] = S[82] = S[83] = 0;
    if (w == 0) { for (int i = 0; i < 4; i++) S[80 + i] = sx_byte("count"); }
    else if (w == 1) { for (int i = 0; i < 5; i++) S[i] = sx_byte("header"); }
    else if (w == 2) { int p = ch("at", 0, 79); S[p] = sx_byte("byte"); }
    else if (k) {
        int f = ch("facet", 0, k - 1), o = 84 + 50 * f;
        if (w == 3) { for (int i = 0; i < 12; i++) S[o + i] = sx_byte("normal"); }
        else if (w == 4) { S[o + 48] = sx_byte("attr"); S[o + 49] = sx_byte("attr"); }
        else if (w == 5) { int v = ch("coordinate", 0, 8), q = o + 12 + 4 * v; static unsigned const B[] = { 0x7f800000u, 0xff800000u, 0x7f7fffffu, 0x00000001u, 0x80000000u, 0x7fc00000u, 0x7f800001u, 0 }; int b = ch("value", 0, 7); memcpy(S + q, &B[b], 4); }
        else { int v = ch("coordinate", 0, 8), q = o + 12 + 4 * v, b = ch("byte of it", 0, 3); S[q + b] = sx_byte("byte"); }
    }
    run();
}
/* large files: many facets sharing corners, given in several orders */
static void coords(int v, int order, int m, int *q)
{
    int k = order == 0 ? v : order == 1 ? 3000 - v : order == 2 ? (v * 37) % 101 : v & 1 ? v : 400 - v; q[0] = k % m; q[1] = k / m % m; q[2] = k / m / m;
}
void h_many(void)
{
    sx_opt("fp", 2); static int const FS[] = { 3, 8, 17, 33, 60 }; int bin = ch("binary", 0, 1), n = FS[ch("facets", 0, (int)sx_param("sizes", 3))], order = ch("order", 0, 3), m = ch("m", 2, 7), at = 3 * n - 1 - (int)sx_param("at", 2); if (m & 1 && m != 7) sx_end();
    S = calloc(1, 100000); N = 0; if (bin) { N = 84 + 50 * n; memset(S, ' ', 80); S[80] = (unsigned char)n; } else put("solid t\n");
    for (int i = 0; i < n; i++) {
        if (!bin) put("facet normal 0 0 0 outer loop\n");
        for (int j = 0; j < 3; j++) { int v = 3 * i + j, q[3]; coords(v, order, m, q); 
            if (bin) for (int d = 0; d < 3; d++) f32(S + 84 + 50 * i + 12 + 12 * j + 4 * d, (float)q[d]);
            else { put("vertex"); for (int d = 0; d < 3; d++) { char b[9]; int l = 0; b[l++] = ' '; if (q[d] > 99) b[l++] = (char)('0' + q[d] / 100); if (q[d] > 9) b[l++] = (char)('0' + q[d] / 10 % 10); b[l++] = (char)('0' + q[d] % 10); b[l] = 0; put(b); if (v == at && d == 1) S[N - 1] = (unsigned char)sx_int("digit", '0', '9'); } put("\n"); } }
        if (!bin) put("endloop endfacet\n");
    }
    if (!bin) put("endsolid t\n"); run();
}
