/* C21: SVG import */
#include "common.h"
#include <stdio.h>
#include <math.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/pool.h>
#include <hob3lmat/mat.h>
#include <hob3l/syn.h>
#include <hob3l/csg.h>
#include <hob3l/csg2.h>
#include <hob3l/csg3.h>
#include <hob3l/xml-parse.h>
#include <hob3l/svg-parse.h>
#ifdef DBG
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) ((void)0)
#endif
#define PI 3.14159265358979323846
typedef struct { double x, y; } pt;
typedef struct { double a, b, c, d, e, f; } mat; /* as in SVG: x' = a x + c y + e, y' = b x + d y + f */
static pt ap(mat m, double x, double y) { return (pt){ m.a * x + m.c * y + m.e, m.b * x + m.d * y + m.f }; }
static mat mul(mat p, mat q) { pt a = ap(p, q.a, q.b), c = ap(p, q.c, q.d), e = ap(p, q.e, q.f); return (mat){ a.x - p.e, a.y - p.f, c.x - p.e, c.y - p.f, e.x, e.y }; }
static mat const ID = { 1, 0, 0, 1, 0, 0 };
static mat xlat(double x, double y) { return (mat){ 1, 0, 0, 1, x, y }; }
static mat scal(double x, double y) { return (mat){ x, 0, 0, y, 0, 0 }; }
/* ---- reference: polygons as lists of closed subpaths ---- */
static pt R[4000]; static int rn; static int sub[400], nsub; static int pol[400], npol; /* first point of subpath, first subpath of polygon */
static mat CM; static int FN = 2;
static double cx, cy, ix, iy, kx, ky; static int prev; static bool open_; /* pen */
static void begin(void) { pol[npol] = nsub; open_ = false; cx = cy = ix = iy = 0; prev = 0; }
static void pushp(double x, double y) { R[rn++] = ap(CM, x, y); }
static void start(void) { if (!open_) { open_ = true; sub[nsub++] = rn; ix = cx; iy = cy; pushp(cx, cy); } }
static void moveto(double x, double y) { open_ = false; cx = ix = x; cy = iy = y; prev = 0; }
static void closep(void) { open_ = false; cx = ix; cy = iy; prev = 0; }
static void lineto(double x, double y) { prev = 0; if (x == cx && y == cy) return; start(); pushp(x, y); cx = x; cy = y; }
static void quad(double x1, double y1, double x, double y)
{
    start(); for (int i = 1; i < FN; i++) { double t = i / (double)FN, s = 1 - t; pushp(s * s * cx + 2 * s * t * x1 + t * t * x, s * s * cy + 2 * s * t * y1 + t * t * y); }
    pushp(x, y); kx = x1; ky = y1; cx = x; cy = y; prev = 'Q';
}
static void cub(double x1, double y1, double x2, double y2, double x, double y)
{
    start(); for (int i = 1; i < FN; i++) { double t = i / (double)FN, s = 1 - t; pushp(s * s * s * cx + 3 * s * s * t * x1 + 3 * s * t * t * x2 + t * t * t * x, s * s * s * cy + 3 * s * s * t * y1 + 3 * s * t * t * y2 + t * t * t * y); }
    pushp(x, y); kx = x2; ky = y2; cx = x; cy = y; prev = 'C';
}
/* arc: find the circle in the space where the ellipse is a unit circle */
static void arc(double rx, double ry, double ph, bool big, bool pos, double x, double y)
{
    prev = 0; if (x == cx && y == cy) return;
    if (rx == 0 || ry == 0) { lineto(x, y); return; }
    rx = fabs(rx); ry = fabs(ry); double co = cos(ph * PI / 180), si = sin(ph * PI / 180);
    double ax = (co * cx + si * cy) / rx, ay = (co * cy - si * cx) / ry, bx = (co * x + si * y) / rx, by = (co * y - si * x) / ry;
    double mx = (ax + bx) / 2, my = (ay + by) / 2, hx = (bx - ax) / 2, hy = (by - ay) / 2, h = sqrt(hx * hx + hy * hy), k = 1;
    if (h >= 1) { k = h; } else { double q = sqrt(1 - h * h) / h; if (big == pos) q = -q; mx -= hy * q; my += hx * q; }
    double a0 = atan2(ay - my, ax - mx), a1 = atan2(by - my, bx - mx), d = a1 - a0;
    if (h >= 1) d = pos ? PI : -PI; else { while (d <= 0) d += 2 * PI; while (d > 2 * PI) d -= 2 * PI; if (!pos) d -= 2 * PI; }
    (void)k; start();
    for (int i = 1; i < FN; i++) { double t = a0 + d * i / FN, u = (mx + (h >= 1 ? h : 1) * cos(t)) * rx, v = (my + (h >= 1 ? h : 1) * sin(t)) * ry; pushp(co * u - si * v, si * u + co * v); }
    pushp(x, y); cx = x; cy = y;
}
static void endpoly(void)
{
    int a = nsub > pol[npol] ? sub[pol[npol]] : rn, u = 0;
    for (int i = a; i < rn; i++) { bool dup = false; for (int j = a; j < i; j++) dup |= fabs(R[i].x - R[j].x) < 1e-5 && fabs(R[i].y - R[j].y) < 1e-5; u += !dup; }
    if (u < 3) { rn = a; nsub = pol[npol]; } else npol++;
}
static void refinit(void) { rn = nsub = npol = 0; CM = scal(1, -1); }
/* ---- texts ---- */
static char const *Q; /* position */
static bool sp_(int c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == 12; }
static void ws(void) { while (sp_(*Q)) Q++; }
static void wsc(void) { ws(); if (*Q == ',') { Q++; ws(); } }
static bool dg(int c) { return c >= '0' && c <= '9'; }
static bool rnum(double *v, bool comma)
{
    if (comma) wsc(); else ws();
    char const *s = Q; char b[64]; int n = 0, d = 0; bool dot = false;
    if (*s == '-' || *s == '+') b[n++] = *s++;
    while (dg(*s) || (*s == '.' && !dot)) { if (*s == '.') dot = true; else d++; if (n < 50) b[n++] = *s; s++; }
    if (!d) return false;
    if (*s == 'x' || *s == 'X') sx_assume(0); /* strtod would read on: left out */
    if (*s == 'e' || *s == 'E') { char const *t = s + 1; char e[20]; int m = 0; e[m++] = 'e'; if (*t == '-' || *t == '+') e[m++] = *t++; if (dg(*t)) { while (dg(*t) && m < 18) e[m++] = *t++; memcpy(b + n, e, m); n += m; s = t; } }
    b[n] = 0; *v = strtod(b, NULL); if (fabs(*v) > 1e6 || (*v != 0 && fabs(*v) < 1e-2)) sx_assume(0); Q = s; return true;
}
static bool rflag(double *v) { wsc(); if (*Q != '0' && *Q != '1') return false; *v = *Q++ - '0'; return true; }
static bool more(void) { ws(); return *Q == ',' || *Q == '.' || *Q == '-' || *Q == '+' || dg(*Q); }
/* path data; drawn up to the first error */
static bool rpath(char const *s)
{
    Q = s;
    for (;;) {
        ws(); int c = *Q; if (c == 0) return true; 
        Q++; bool rel = c >= 'a'; int C = rel ? c - 32 : c; if (C == 'Z') { closep(); continue; }
        int n = C == 'M' || C == 'L' || C == 'T' ? 2 : C == 'H' || C == 'V' ? 1 : C == 'Q' || C == 'S' ? 4 : C == 'C' ? 6 : C == 'A' ? 7 : 0; if (n == 0) return false;
        for (int k = 0; k == 0 || more(); k++) {
            double v[7]; for (int i = 0; i < n; i++) if (!(C == 'A' && (i == 3 || i == 4) ? rflag(&v[i]) : rnum(&v[i], i > 0 || k > 0))) return false;
            double ox = rel ? cx : 0, oy = rel ? cy : 0;
            switch (C) {
            case 'M': if (k == 0) moveto(v[0] + ox, v[1] + oy); else lineto(v[0] + ox, v[1] + oy); break;
            case 'L': lineto(v[0] + ox, v[1] + oy); break;
            case 'H': lineto(v[0] + ox, cy); break;
            case 'V': lineto(cx, v[0] + oy); break;
            case 'Q': quad(v[0] + ox, v[1] + oy, v[2] + ox, v[3] + oy); break;
            case 'T': { double a = prev == 'Q' ? 2 * cx - kx : cx, b = prev == 'Q' ? 2 * cy - ky : cy; quad(a, b, v[0] + ox, v[1] + oy); break; }
            case 'C': cub(v[0] + ox, v[1] + oy, v[2] + ox, v[3] + oy, v[4] + ox, v[5] + oy); break;
            case 'S': { double a = prev == 'C' ? 2 * cx - kx : cx, b = prev == 'C' ? 2 * cy - ky : cy; cub(a, b, v[0] + ox, v[1] + oy, v[2] + ox, v[3] + oy); break; }
            case 'A': arc(v[0], v[1], v[2], v[3] != 0, v[4] != 0, v[5] + ox, v[6] + oy); break;
            }
        }
    }
}
/* number with unit, in px; perc: what 100% means */
static bool rdim(char const *s, double *v, double perc, double unit)
{
    Q = s; double r; if (!rnum(&r, false)) return false;
    static struct { char const *n; double f; } const U[] = { { "px", 1 }, { "in", 96 }, { "mm", 96 / 25.4 }, { "cm", 96 / 2.54 }, { "pt", 96.0 / 72 }, { "pc", 16 }, { "%", -1 } };
    int k; for (k = 0; k < 7; k++) if (Q[0] == U[k].n[0] && (U[k].n[1] == 0 || Q[1] == U[k].n[1])) { Q += strlen(U[k].n); break; }
    r *= k == 7 ? unit : k == 6 ? perc / 100 : U[k].f; ws(); if (*Q) return false;
    *v = r; return true;
}
/* list of transformations */
static bool rxform(char const *s, mat *m)
{
    Q = s; ws();
    while (*Q) {
        char const *n = Q; while ((*Q >= 'a' && *Q <= 'z') || (*Q >= 'A' && *Q <= 'Z')) Q++;
        int l = (int)(Q - n); ws(); if (*Q++ != '(') return false;
        double v[8]; int k = 0; while (k < 8 && rnum(&v[k], k > 0)) k++;
        ws(); if (*Q++ != ')') return false;
if (l == 5 && fabs(tan(v[0] * PI / 180)) > 100) sx_assume(0); /* skewing by a right angle */
#define W(w) (l == (int)sizeof w - 1 && memcmp(n, w, l) == 0)
        mat t = ID;
        if (W("translate") && (k == 1 || k == 2)) t = xlat(v[0], k == 2 ? v[1] : 0);
        else if (W("scale") && (k == 1 || k == 2)) t = scal(v[0], k == 2 ? v[1] : v[0]);
        else if (W("rotate") && (k == 1 || k == 3)) { double c = cos(v[0] * PI / 180), z = sin(v[0] * PI / 180); t = (mat){ c, z, -z, c, 0, 0 }; if (k == 3) t = mul(mul(xlat(v[1], v[2]), t), xlat(-v[1], -v[2])); }
        else if (W("skewX") && k == 1) t.c = tan(v[0] * PI / 180);
        else if (W("skewY") && k == 1) t.b = tan(v[0] * PI / 180);
        else if (W("matrix") && k == 6) t = (mat){ v[0], v[1], v[2], v[3], v[4], v[5] };
        else return false;
        *m = mul(*m, t); wsc();
    }
    return true;
}
/* ---- run the importer ---- */
static cp_syn_input_t in; static cp_err_t er; static cp_syn_file_t *file; static cp_pool_t tmp; static cp_v_obj_p_t out; static cp_xml_t *top; static cp_csg3_ctxt_t cx3; static cp_csg3_local_t loc3; static cp_mat3wi_t unit; static cp_csg_opt_t opt;
static void load(char const *txt)
{
    memset(&in, 0, sizeof in); memset(&er, 0, sizeof er); memset(&out, 0, sizeof out); memset(&cx3, 0, sizeof cx3); memset(&loc3, 0, sizeof loc3); file = calloc(1, sizeof *file); cp_pool_init(&tmp);
    sx_vfile("f.svg", txt, strlen(txt)); CHECK(cp_syn_read(file, &er, &in, NULL, "f.svg", NULL), "reading failed");
    cp_xml_t *x; bool ok = cp_xml_parse(&x, &tmp, &er, file, CP_XML_OPT_CHOMP); D("%s\n%s\n", txt, er.msg.size ? er.msg.data : ""); CHECK(ok, "XML rejected");
    top = cp_xml_find(x->child, CP_XML_ELEM, CP_XML_ANY, CP_XML_ANY); cp_xml_set_ns(top, NULL, CP_SVG_NS);
    cp_mat3wi_unit(&unit); opt = (cp_csg_opt_t)CP_CSG_OPT_DEFAULT; opt.max_fn = 8; cx3.tmp = &tmp; cx3.syn = &in; cx3.opt = &opt; cx3.err = &er; loc3.mat = &unit; loc3.tmp = &tmp;
}
static cp_xml_t *find(cp_xml_t *x, char const *e) { for (; x; x = x->next) { if (x->type == CP_XML_ELEM && strcmp(x->data, e) == 0) return x; cp_xml_t *r = find(x->child, e); if (r) return r; } return NULL; }
static void setattr(char const *e, char const *a, char *v) { cp_xml_t *x = cp_xml_find(find(top, e)->child, CP_XML_ATTR, a, NULL); x->child->data = v; }
static bool import(char const *layer, double dpi, bool center)
{
    cp_detail_t det = CP_DETAIL_INIT; det._fn = (unsigned)FN; bool ok = cp_svg_parse(&out, &cx3, &loc3, &det, layer, dpi, center, top);
    CHECK(ok, "import failed"); return ok;
}
#define near(u, v) (fabs((u) - (v)) < 1e-4 * (1 + fabs(v)))
static void compare(void)
{
    int q = 0; pol[npol] = nsub; sub[nsub] = rn;
    for (int i = 0; i < npol; i++) for (int s = pol[i]; s < pol[i + 1]; s++) for (int j = sub[s]; j < (s + 1 < nsub ? sub[s + 1] : rn); j++) D("want %d/%d: %g %g\n", i, s, R[j].x, R[j].y);
    for (size_t k = 0; k < out.size; k++) {
        cp_csg2_poly_t *p = cp_csg2_cast(cp_csg2_poly_t, out.data[k]);
        for (size_t s = 0; s < p->path.size; s++) for (size_t j = 0; j < p->path.data[s].point_idx.size; j++) { size_t ix_ = p->path.data[s].point_idx.data[j]; CHECK(ix_ < p->point.size, "path refers to no point"); D("have %zu/%zu: %g %g\n", k, s, p->point.data[ix_].coord.x, p->point.data[ix_].coord.y); }
    }
    bool bad = false;
    for (size_t k = 0; k < out.size; k++) {
        cp_csg2_poly_t *p = cp_csg2_cast(cp_csg2_poly_t, out.data[k]); if (p->path.size == 0) continue;
        CHECK(q < npol, "a polygon that the SVG does not describe");
        CHECK((int)p->path.size == pol[q + 1] - pol[q], "wrong number of subpaths");
        for (size_t s = 0; s < p->path.size; s++) {
            int ss = pol[q] + (int)s, a = sub[ss], n = sub[ss + 1] - a; cp_v_size_t *v = &p->path.data[s].point_idx; CHECK((int)v->size == n, "wrong number of points");
            for (int j = 0; j < n; j++) { cp_vec2_t *c = &p->point.data[v->data[j]].coord; bad |= !near(c->x, R[a + j].x) || !near(c->y, R[a + j].y); }
        }
        for (size_t j = 1; j < p->point.size; j++) CHECK(cp_vec2_lex_cmp(&p->point.data[j - 1].coord, &p->point.data[j].coord) != 0, "equal points are not one point");
        q++;
    }
    CHECK(!bad, "a point is not where the SVG puts it"); CHECK(q == npol, "a polygon of the SVG is missing");
    sx_reach(npol ? "polygons" : "nothing drawn");
}
static char *sym(char const *a, int n, char const *b)
{
    int la = (int)strlen(a), lb = (int)strlen(b); char *s = malloc(la + n + lb + 1); memcpy(s, a, la);
    for (int i = 0; i < n; i++) { s[la + i] = (char)sx_byte("byte"); sx_assume((unsigned char)s[la + i] < 128); if (s[la + i] == 0) sx_assume(0); }
    memcpy(s + la + n, b, lb + 1); return s;
}
/* ---- path data with any bytes ---- */
static char const *const PT[][2] = { { "", "" }, { "M1 2", "9 0 9 9" }, { "M0 0h5v5", "3 4z" }, { "M,", " 2 9 0 9 9" }, { "M0,0 9 0", "9 9Z" }, { "m1 1 2 0 0 2z", "3 0 0 3" }, { "M0 0Q5 5 8 0", "4 9" }, { "M0 0C1 2 3 4 9 0", "5 6 7 9" }, { "M0 0A5 5 0 ", "1 9 3z" }, { "M0 0 9 0 9 9", "5" }, { "M0 0 9 0 9 9 0 5z", " 4 4 5 4 5 5" }, { "M.5", "-.5+9.5 0 9e", }, { "M0 0 9 0 9 9a3 4 30 0", "8 0z" }, { "M0 0 9 0 9 9l2e", " 3 4" } };
#define NPT ((int)(sizeof PT / sizeof *PT))
void h_path(void)
{
    int t = ch("context", (int)sx_param("t0", 0), (int)sx_param("t1", NPT - 1)), n = ch("n", 0, (int)sx_param("n", 2)); load("<svg><path d=''/></svg>"); char *s = sym(PT[t][0], n, PT[t][1] ? PT[t][1] : ""); setattr("path", "d", s); D("'%s'\n", s);
    refinit(); begin(); rpath(s); endpoly(); import(NULL, 72, false); compare();
}
/* ---- every sequence of path commands ---- */
static char buf[512];
static char *num(char *p, int v) { return p + snprintf(p, 16, "%d ", v); }
void h_cmds(void)
{
    static char const CMD[] = "MLHVQTCSAZ"; int n = ch("commands", 1, (int)sx_param("cmds", 3)); char *p = buf; p += sprintf(p, "M1 2 "); int seed = 0;
    for (int i = 0; i < n; i++) {
        int k = ch("command", 0, 9), rel = ch("relative", 0, 1), rep = i == n - 1 && k != 9 ? ch("repeated", 1, 2) : 1; *p++ = (char)(CMD[k] + (rel ? 32 : 0));
        int na = k < 2 || k == 5 ? 2 : k == 2 || k == 3 ? 1 : k == 4 || k == 7 ? 4 : k == 6 ? 6 : k == 8 ? 7 : 0;
        for (int r = 0; r < rep; r++) for (int a = 0; a < na; a++) { seed++; int v = (seed * 7 + seed * seed * 3) % 11 - 2; if (k == 8 && (a == 3 || a == 4)) { p = num(p, (seed + i + r) / (1 + a % 2) % 2); continue; } p = num(p, v); }
    }
    *p = 0; p = num(p, 0); p[-2] = 0; p -= 2; /* closing part fixed */ strcpy(p, "L3 9 8 1"); p += 8; int d = (int)sx_int("digit", 1, 9); p[-1] = (char)('0' + d);
    FN = ch("segments", 2, 3); load("<svg><path d=''/></svg>"); setattr("path", "d", buf); D("'%s'\n", buf);
    refinit(); begin(); rpath(buf); endpoly(); import(NULL, 72, false); compare();
}
/* ---- arcs ---- */
void h_arc(void)
{
    static int const RX[] = { 5, 0, -4, 1 }, PH[] = { 0, 90, 30, -45, 400 }; int rx = RX[ch("rx", 0, 3)], ry = RX[ch("ry", 0, 3)], ph = PH[ch("angle", 0, 4)], fa = ch("large", 0, 1), fs = ch("sweep", 0, 1), rel = ch("relative", 0, 1); FN = (int)sx_param("fn", 4);
    int x = (int)sx_int("x", 0, (int)sx_param("r", 9)), y = (int)sx_int("y", 0, (int)sx_param("r", 9)); char *p = buf; p += sprintf(p, "M4 4%c%d,%d %d %d%d  ", rel ? 'a' : 'A', rx, ry, ph, fa, fs); p[-1] = (char)('0' + x); *p++ = ' '; *p++ = (char)('0' + y); strcpy(p, "L20 31");
    load("<svg><path d=''/></svg>"); setattr("path", "d", buf); D("'%s'\n", buf); refinit(); begin(); rpath(buf); endpoly(); import(NULL, 72, false); compare();
}
/* ---- basic shapes, units ---- */
void h_shapes(void)
{
    static char const *const DOC[] = { "<svg><rect x='a' y='b' width='c' height='d' rx='e' ry='f'/></svg>", "<svg><circle cx='a' cy='b' r='c'/></svg>", "<svg><ellipse cx='a' cy='b' rx='c' ry='d'/></svg>", "<svg><polygon points='a'/></svg>", "<svg><polyline points='a'/></svg>", "<svg><line x1='1' y1='2' x2='7' y2='9'/></svg>" };
    int t = ch("shape", 0, 5); load(DOC[t]); FN = 4; refinit();
    static char const *const nm[3][6] = { { "x", "y", "width", "height", "rx", "ry" }, { "cx", "cy", "r" }, { "cx", "cy", "rx", "ry" } }; static int const na[3] = { 6, 3, 4 }; static char const *const dflt[3][6] = { { "1", "-2", "40", "30mm", "4", "3" }, { "3px", "1.5", "8" }, { "1", "2in", "7", "4pt" } };
    if (t < 3) {
        static char const *const el[] = { "rect", "circle", "ellipse" }; double v[6] = { 0 }; int w = ch("attribute", 0, na[t] - 1), n = ch("n", 0, (int)sx_param("n", 2)); bool val[6];
        for (int i = 0; i < na[t]; i++) { char *s = i == w ? sym(ch("digit first", 0, 1) ? "6" : "", n, "") : (char*)dflt[t][i]; setattr(el[t], nm[t][i], s); val[i] = rdim(s, &v[i], 0, 1); if (!val[i]) { v[i] = 0; sx_reach("invalid"); } if (t == 0 && i >= 4 && (v[i] < 0 || !val[i])) sx_assume(0); if (t == 2 && i >= 2 && !val[i]) sx_assume(0); D("%s='%s' %g\n", nm[t][i], s, v[i]); }
        begin();
        if (t == 0) {
            if (v[2] > 0 && v[3] > 0) {
                double x = v[0], y = v[1], W_ = v[2], H = v[3], rx = fmin(v[4], W_ / 2), ry = fmin(v[5], H / 2); if (rx == 0 || ry == 0) rx = ry = 0;
                moveto(x + rx, y); lineto(x + W_ - rx, y); arc(rx, ry, 0, 0, 1, x + W_, y + ry); lineto(x + W_, y + H - ry); arc(rx, ry, 0, 0, 1, x + W_ - rx, y + H); lineto(x + rx, y + H); arc(rx, ry, 0, 0, 1, x, y + H - ry); lineto(x, y + ry); arc(rx, ry, 0, 0, 1, x + rx, y);
            }
        } else { double rx = v[2], ry = t == 1 ? v[2] : v[3]; if (rx > 0 && ry > 0) { sub[nsub++] = rn; for (int i = 0; i < 4; i++) pushp(v[0] + rx * cos(i * PI / 2), v[1] + ry * sin(i * PI / 2)); } }
        endpoly(); import(NULL, 72, false);
        if (t == 0) { /* where straight edges and arcs meet a point may be given twice */
            for (size_t k = 0; k < out.size; k++) { cp_csg2_poly_t *p = cp_csg2_cast(cp_csg2_poly_t, out.data[k]); for (size_t s = 0; s < p->path.size; s++) { cp_v_size_t *u = &p->path.data[s].point_idx; size_t m = 0; for (size_t j = 0; j < u->size; j++) if (m == 0 || u->data[j] != u->data[m - 1]) u->data[m++] = u->data[j]; while (m > 1 && u->data[m - 1] == u->data[0]) m--; u->size = m; } }
            int m = 0; for (int i = 0; i < rn; i++) if (m == 0 || fabs(R[i].x - R[m - 1].x) > 1e-5 || fabs(R[i].y - R[m - 1].y) > 1e-5) R[m++] = R[i]; while (m > 1 && fabs(R[m - 1].x - R[0].x) < 1e-5 && fabs(R[m - 1].y - R[0].y) < 1e-5) m--; rn = m;
        }
        compare();
    } else if (t < 5) {
        int n = ch("n", 0, (int)sx_param("n", 2)); char *s = sym("1,2", n, "3 9 9-8 .5"); setattr(t == 3 ? "polygon" : "polyline", "points", s); D("'%s'\n", s);
        bool ok = true; Q = s; begin(); int k = 0; double v[2]; for (;; k++) { if (k && !more()) break; if (!rnum(&v[0], k > 0) || !rnum(&v[1], true)) { ok = false; break; } if (k) lineto(v[0], v[1]); else moveto(v[0], v[1]); }
        ws(); if (*Q) ok = false; if (!ok) { npol = nsub = rn = 0; sx_reach("invalid"); } else endpoly();
        import(NULL, 72, false); compare();
    } else { import(NULL, 72, false); compare(); }
}
/* ---- transformations ---- */
void h_xform(void)
{
    static char const *const TT[][2] = { { "", "" }, { "translate(3", ")" }, { "scale(", "3)" }, { "rotate(3", " 1 2)" }, { "rotate(90", ")scale(2)" }, { "skewX(", "0)" }, { "skewY(30", ")" }, { "matrix(1 2,3 ", "5 6)" }, { "translate(1 2)", "scale(3)" }, { "scale(2)", "(3,4)translate(1 5)" }, { "tr", "slate(4)" }, { "skew", "(20)rotate(10)" } };
    int t = ch("context", 0, (int)(sizeof TT / sizeof *TT) - 1), n = ch("n", 0, (int)sx_param("n", 2)), el = ch("element", 0, 2); static char const *const E[] = { "polygon", "g", "svg" };
    load(el == 2 ? "<svg><svg transform=''><polygon points='1 2 5 3 2 9'/></svg></svg>" : el == 1 ? "<svg><g transform=''><polygon points='1 2 5 3 2 9'/></g></svg>" : "<svg><polygon transform='' points='1 2 5 3 2 9'/></svg>");
    char *s = sym(TT[t][0], n, TT[t][1]); D("'%s'\n", s); if (el == 2) cp_xml_find(find(top->child, "svg")->child, CP_XML_ATTR, "transform", NULL)->child->data = s; else setattr(E[el], "transform", s);
    refinit(); mat m = CM; bool ok = rxform(s, &m), det = fabs(m.a * m.d - m.b * m.c) > 1e-3;
    import(NULL, 72, false);
    if (!ok || !det) { sx_reach("malformed"); return; } /* reported; what remains of it is not specified */
    CM = m; begin(); moveto(1, 2); lineto(5, 3); lineto(2, 9); endpoly(); compare();
}
/* ---- structure: groups, nesting, layers, name spaces ---- */
void h_struct(void)
{
    static char const *const EL[] = { "g", "svg", "defs", "symbol", "title", "blah", "x:g", "switch" }; int e1 = ch("outer", 0, 7), e2 = ch("inner", 0, 7), lay = ch("layer", 0, 4), ns = ch("name space", 0, 1), i1 = ch("id outer", 0, 1), i2 = ch("id inner", 0, 1), i3 = ch("id shape", 0, 1);
    static char const *const LY[] = { NULL, "A", "B", "C", "" }; int a = (int)sx_int("digit", 1, (int)sx_param("r", 9)), b = (int)sx_int("digit", 1, (int)sx_param("r", 9));
    snprintf(buf, sizeof buf, "<svg xmlns%s='http://www.w3.org/2000/svg' xmlns:x='y'><%s transform='translate(%d 0)'%s><%s%s><polygon points='0 0 1 0 0 1'%s/></%s><polygon points='0 0 2 0 0 2'/></%s><polygon points='0 0 3 0 0 3' transform='translate(0,%d)'/></svg>", ns ? ":q='' xmlns" : "", EL[e1], 1, i1 ? " id='A'" : "", EL[e2], i2 ? " id='B'" : "", i3 ? " id='C'" : "", EL[e2], EL[e1], 1);
    load(buf); char *u = malloc(20), *w = malloc(20); strcpy(u, "translate(1 0)"); u[10] = (char)('0' + a); strcpy(w, "translate(0,1)"); w[12] = (char)('0' + b);
    cp_xml_find(cp_xml_skip_attr(top->child)->child, CP_XML_ATTR, "transform", NULL)->child->data = u;
    cp_xml_t *lp = cp_xml_skip_attr(top->child)->next; cp_xml_find(lp->child, CP_XML_ATTR, "transform", NULL)->child->data = w;
    refinit(); bool r1 = e1 < 2 || e1 == 5, r2 = r1 && (e2 < 2 || e2 == 5), all = lay == 0 || lay == 4; bool in1 = all || (lay == 1 && i1), in2 = in1 || (lay == 2 && i2), in3 = in2 || (lay == 3 && i3); mat base = CM;
    CM = mul(base, xlat(a, 0)); if (r2 && in3) { begin(); moveto(0, 0); lineto(1, 0); lineto(0, 1); endpoly(); }
    if (r1 && in1) { begin(); moveto(0, 0); lineto(2, 0); lineto(0, 2); endpoly(); }
    CM = mul(base, xlat(0, b)); if (all) { begin(); moveto(0, 0); lineto(3, 0); lineto(0, 3); endpoly(); }
    import(LY[lay], 72, false); compare();
}
/* ---- viewBox, width, height, preserveAspectRatio, dpi, center ---- */
void h_view(void)
{
    static char const *const WD[] = { NULL, "200", "100mm", "6in", "x", "50%", "0" }, *const HG[] = { NULL, "100", "150mm", "48px" }, *const VB[] = { NULL, "0 0 50 40", "5,-6 20 30", "0 0 0 9", "1 2 3" }, *const PA[] = { NULL, "xMinYMin", "xMaxYMid meet", "none", "xMidYMax slice", "xMinYMax slice" };
    int w = ch("width", 0, 6), h = ch("height", 0, 3), v = ch("viewBox", 0, 4), pa = ch("aspect", 0, 5), nest = ch("nested", 0, 1), dp = ch("dpi", 0, 1), ce = ch("center", 0, 1); double dpi = dp ? 100 : 72;
    char *p = buf; if (nest) p += sprintf(p, "<svg viewBox='0 0 400 300' width='400px' height='300px'><svg x='7' y='50%%'"); else p += sprintf(p, "<svg");
    if (WD[w]) p += sprintf(p, " width='%s'", WD[w]); if (HG[h]) p += sprintf(p, " height='%s'", HG[h]); if (VB[v]) p += sprintf(p, " viewBox='%s'", VB[v]); if (PA[pa]) p += sprintf(p, " preserveAspectRatio='%s'", PA[pa]);
    p += sprintf(p, "><rect x='10%%' y='3' width='5' height='4'/></svg>%s", nest ? "</svg>" : ""); load(buf); int d = (int)sx_int("digit", 1, 9); char *rw = malloc(3); rw[0] = (char)('0' + d); rw[1] = 0; setattr("rect", "width", rw);
    refinit(); double W = nest ? 400 : 0, H = nest ? 300 : 0, ew = W, eh = H, u = nest ? 1 : 96 / dpi; double vx, vy, vw, vh; bool hv = v == 1 || v == 2; if (v == 1) { vx = vy = 0; vw = 50; vh = 40; } else { vx = 5; vy = -6; vw = 20; vh = 30; }
    if (WD[w]) { double z; if (rdim(WD[w], &z, W, u)) ew = z; } if (HG[h]) { double z; if (rdim(HG[h], &z, H, u)) eh = z; }
    if (nest && (WD[w] && (w == 4 || w == 6))) sx_assume(0);
    bool hs = ew > 0 && eh > 0; mat m = scal(1, -1); double pw = W;
    if (nest) { m = mul(m, scal(25.4 / 96, 25.4 / 96)); m = mul(m, ce ? xlat(-200, -150) : xlat(0, -300)); m = mul(m, xlat(7, 150)); }
    else if (hv) { if (!hs && v == 2) sx_assume(0); double k = hs ? 25.4 / 96 : 25.4 / dpi, sw = hs ? ew : vw, sh = hs ? eh : vh; m = mul(m, scal(k, k)); m = mul(m, ce ? xlat(-sw / 2, -sh / 2) : xlat(0, -sh)); }
    if (hv && hs) {
        double sx = ew / vw, sy = eh / vh; bool none = pa == 3, slice = pa >= 4; if (!none) { double q = slice ? fmax(sx, sy) : fmin(sx, sy); sx = sy = q; }
        static double const AX[] = { .5, 0, 1, 0, .5, 0 }, AY[] = { .5, 0, .5, 0, 1, 1 };
        m = mul(m, xlat((ew - vw * sx) * AX[pa], (eh - vh * sy) * AY[pa])); m = mul(m, scal(sx, sy)); m = mul(m, xlat(-vx, -vy)); pw = vw;
    }
    CM = m; begin(); double x = pw / 10; moveto(x, 3); lineto(x + d, 3); lineto(x + d, 7); lineto(x, 7); lineto(x, 3); endpoly();
    import(NULL, dpi, ce); for (size_t k = 0; k < out.size; k++) { cp_csg2_poly_t *q = cp_csg2_cast(cp_csg2_poly_t, out.data[k]); if (q->path.size) { cp_v_size_t *uu = &q->path.data[0].point_idx; if (uu->size == 5 && uu->data[4] == uu->data[0]) uu->size = 4; } }
    if (rn == 5) rn = 4;
    compare();
}

/* ---- large drawings: many subpaths, points, elements, levels, segments, transformations ---- */
void h_many(void)
{
    static int const SZ[] = { 5, 9, 17, 40, 70, 130 }; int n = SZ[ch("size", 0, (int)sx_param("sizes", 6) - 1)], k = ch("shape", (int)sx_param("k0", 0), (int)sx_param("k1", 6)), at = ch("at", 0, 2) * (n - 1) / 2; int d = (int)sx_int("digit", 1, 9); if (sx_param("conc", 0)) d = (int)sx_concretize(d); char D_ = (char)('0' + d); char *b = malloc(20000), *p = b, *q; int hole = -1;
#define T_(...) (p += sprintf(p, __VA_ARGS__))
#define DIG() (hole = (int)(p - b), *p++ = '5')
#define DD(i) ((i) == at ? d : 5)
    refinit(); FN = 2;
    if (k == 0) { begin(); for (int i = 0; i < n; i++) { T_("M%d 0l", 20 * i); if (i == at) DIG(); else T_("5"); T_(" 0 0 %d%s", 3 + i % 4, i % 3 ? "z" : ""); moveto(20 * i, 0); lineto(20 * i + DD(i), 0); lineto(20 * i + DD(i), 3 + i % 4); if (i % 3) closep(); } endpoly(); }
    if (k == 1) { begin(); T_("M0 0L"); moveto(0, 0); for (int i = 1; i <= n; i++) { T_("%d,", i); if (i - 1 == at) DIG(); else T_("5"); T_("%d ", i % 10); lineto(i, 10 * DD(i - 1) + i % 10); } endpoly(); }
    if (k == 2) { begin(); T_("M0 0"); moveto(0, 0); for (int i = 1; i <= n; i++) { int m = i % 5; q = p; if (i - 1 == at) { T_("l1 "); DIG(); } else T_(m == 0 ? "h2" : m == 1 ? "v5" : m == 2 ? "q5 1 2 3" : m == 3 ? "c1 2 3 4 5 6" : "t4 1"); (void)q; if (i - 1 == at) { lineto(cx + 1, cy + d); continue; } switch (m) { case 0: lineto(cx + 2, cy); break; case 1: lineto(cx, cy + 5); break; case 2: quad(cx + 5, cy + 1, cx + 2, cy + 3); break; case 3: cub(cx + 1, cy + 2, cx + 3, cy + 4, cx + 5, cy + 6); break; default: { double a = prev == 'Q' ? 2 * cx - kx : cx, e = prev == 'Q' ? 2 * cy - ky : cy; quad(a, e, cx + 4, cy + 1); } } } endpoly(); }
    if (k == 3) { FN = n; begin(); T_("M1 2Q5 9 "); DIG(); T_(" 0C9 8 7 16 15 4"); moveto(1, 2); quad(5, 9, d, 0); cub(9, 8, 7, 16, 15, 4); T_("A40 30 20 0 1 90 80"); arc(40, 30, 20, 0, 1, 90, 80); endpoly(); }
    if (k < 4) { *p = 0; load("<svg><path d=''/></svg>"); setattr("path", "d", b); }
    if (k == 4) { /* elements */
        T_("<svg>"); for (int i = 0; i < n; i++) { if (i % 4 == 3) T_("<g/>"); T_("<polygon points='%d 0 %d ", i * 10, i * 10 + 3); if (i == at) DIG(); else T_("5"); T_(" %d 9'/>", i * 10); begin(); moveto(i * 10, 0); lineto(i * 10 + 3, DD(i)); lineto(i * 10, 9); endpoly(); } T_("</svg>"); }
    if (k == 5) { /* levels; a shape in front of and behind each */
        T_("<svg>"); mat m[200]; for (int i = 0; i < n; i++) { T_("<polygon points='1 1 2 2 1 9'/><g transform='translate(1 "); begin(); moveto(1, 1); lineto(2, 2); lineto(1, 9); endpoly(); if (i == at) DIG(); else T_("5"); T_(")%s'>", i % 2 ? "rotate(90)" : ""); m[i] = CM; CM = mul(CM, xlat(1, DD(i))); if (i % 2) { mat r = { 0, 1, -1, 0, 0, 0 }; CM = mul(CM, r); } }
        for (int i = n; i-- > 0; ) { T_("<polygon points='0 0 2 2 0 %d'/></g>", i + 3); begin(); moveto(0, 0); lineto(2, 2); lineto(0, i + 3); endpoly(); CM = m[i]; } T_("</svg>"); }
    if (k == 6) { T_("<svg><polygon points='1 2 5 3 2 9' transform='"); for (int i = 0; i < n; i++) { T_(i % 3 == 0 ? "translate(1 %s" : i % 3 == 1 ? "rotate(90)%s" : "matrix(0 1 -1 0 3 1)%s", ""); if (i % 3 == 0) { int x = at - at % 3 == i; if (x) DIG(); else T_("5"); T_(")"); CM = mul(CM, xlat(1, x ? d : 5)); } else { mat r = { 0, 1, -1, 0, 0, 0 }; if (i % 3 == 2) { r.e = 3; r.f = 1; } CM = mul(CM, r); } } T_("'/></svg>"); begin(); moveto(1, 2); lineto(5, 3); lineto(2, 9); endpoly(); }
    if (k >= 4) { *p = 0; b[hole] = 0; char c0 = '5'; b[hole] = c0; load(b); /* put the symbolic digit into the tree, at the same place of the same string */
        for (cp_xml_t *x = top; x; ) { cp_xml_t *st[2000]; int ns_ = 0; st[ns_++] = x; int left = -1; (void)left; long o = hole; while (ns_) { cp_xml_t *y = st[--ns_]; for (; y; y = y->next) { if (y->type == CP_XML_ATTR && y->child && y->child->data) { char *t = y->child->data; char const *orig = b + (y->loc - file->content.data); char const *v0 = strchr(orig, '\'') + 1; long off = o - (v0 - b); if (off >= 0 && off < (long)strlen(t)) t[off] = D_; } if (y->child && y->type == CP_XML_ELEM) st[ns_++] = y->child; } } break; }
    } else b[hole] = D_;
    opt.max_fn = 4000; import(NULL, 72, false); compare();
}
