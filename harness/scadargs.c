/* C18: arguments of scene functions */
#include "common.h"
#include <stdio.h>
#include <math.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/base-mat.h>
#include <hob3l/syn.h>
#include <hob3l/syn-msg.h>
#include <hob3l/scad.h>
#include <hob3l/gc.h>
#ifdef DBG
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) ((void)0)
#endif
/* ---- text under construction ---- */
static char T[8192]; static int N;
static void put(char const *s) { int n = (int)strlen(s); memcpy(T + N, s, n); N += n; }
static void putc1(int c) { T[N++] = (char)c; }
/* ---- a value: its text and what it denotes ---- */
enum { VINT, VFLT, VID, VSTR, VARR, VRNG };
typedef struct { int t; double num; char const *id; int n; double a[4]; int pos; bool neg; } val_t;
static int digit(void) { return (int)sx_int("digit", 1, 9); }
static int pint(void) { int d = digit(); putc1('0' + d); return d; }
static void varr(val_t *v, int n) { v->t = VARR; v->n = n; putc1('['); for (int i = 0; i < n; i++) { if (i) putc1(','); v->a[i] = pint(); } putc1(']'); }
enum { F_INT, F_BIG, F_FLT, F_TRUE, F_FALSE, F_PI, F_UNDEF, F_OTHER, F_STR, F_A0, F_A1, F_A2, F_A3, F_A4, F_ABAD, F_RNG, F_NEG, NFORM };
static void value(val_t *v, int form)
{
    memset(v, 0, sizeof *v); v->pos = N;
    switch (form) {
    case F_INT: v->t = VINT; v->num = pint(); break;
    case F_BIG: v->t = VINT; v->num = 4294967296.0; put("4294967296"); break;
    case F_FLT: v->t = VFLT; v->num = 2.5; put("2.5"); break;
    case F_TRUE: v->t = VID; v->id = "true"; put("true"); break;
    case F_FALSE: v->t = VID; v->id = "false"; put("false"); break;
    case F_PI: v->t = VID; v->id = "PI"; put("PI"); break;
    case F_UNDEF: v->t = VID; v->id = "undef"; put("undef"); break;
    case F_OTHER: v->t = VID; v->id = "truer"; put("truer"); break;
    case F_STR: v->t = VSTR; v->id = "q"; put("\"q\""); break;
    case F_A0: case F_A1: case F_A2: case F_A3: case F_A4: varr(v, form - F_A0); break;
    case F_ABAD: v->t = VARR; v->n = 3; put("[1,\"q\",2]"); v->num = -1; break;
    case F_RNG: v->t = VRNG; put("[1:3]"); break;
    case F_NEG: v->t = VINT; v->neg = true; putc1('-'); v->num = -pint(); break;
    }
}
/* documented conversions */
static bool toF(val_t const *v, double *x)
{
    if (v->t == VINT || v->t == VFLT) { *x = v->num; return true; }
    if (v->t == VID) { if (!strcmp(v->id, "true")) { *x = 1; return true; } if (!strcmp(v->id, "false")) { *x = 0; return true; } if (!strcmp(v->id, "PI")) { *x = 3.14159265358979323846; return true; } }
    return false;
}
static bool toU(val_t const *v, double *x)
{
    if (v->t == VINT && !v->neg && v->num < 4294967296.0) { *x = v->num; return true; }
    if (v->t == VID && (!strcmp(v->id, "true") || !strcmp(v->id, "false"))) { *x = v->id[0] == 't'; return true; }
    return false;
}
static bool arrn(val_t const *v, int n, double *x) { if (v->t != VARR || v->n != n || v->num < 0) return false; for (int i = 0; i < n; i++) x[i] = v->a[i]; return true; }
enum { F, B, U, S, V3, V3F, V2F, V23, V23F, ROT };
typedef struct { char const *name; int kind; bool pos; } par_t;
typedef struct { char const *name; int type; par_t p[12]; bool child; int nat; } fn_t;
/* doc/scadformat.md */
#define DET { "$fa", F, 0 }, { "$fs", F, 0 }, { "$fn", U, 0 }
static fn_t const FN[] = {
    { "cube", CP_SCAD_CUBE, { { "size", V3F, 1 }, { "center", B, 1 } } },
    { "square", CP_SCAD_SQUARE, { { "size", V2F, 1 }, { "center", B, 1 } } },
    { "sphere", CP_SCAD_SPHERE, { { "r", F, 1 }, { "d", F, 0 }, DET } },
    { "circle", CP_SCAD_CIRCLE, { { "r", F, 1 }, { "d", F, 0 }, DET } },
    { "cylinder", CP_SCAD_CYLINDER, { { "h", F, 1 }, { "r1", F, 1 }, { "r2", F, 1 }, { "center", B, 1 }, { "d", F, 0 }, { "d1", F, 0 }, { "d2", F, 0 }, { "r", F, 0 }, DET } },
    { "linear_extrude", CP_SCAD_LINEXT, { { "height", F, 1 }, { "center", B, 0 }, { "slices", U, 0 }, { "twist", F, 0 }, { "scale", V2F, 0 }, { "convexity", U, 0 }, DET }, true },
    { "rotate_extrude", CP_SCAD_ROTEXT, { { "angle", F, 0 }, { "convexity", U, 0 }, DET }, true },
    { "translate", CP_SCAD_TRANSLATE, { { "v", V23, 1 } }, true },
    { "mirror", CP_SCAD_MIRROR, { { "v", V23, 1 } }, true },
    { "scale", CP_SCAD_SCALE, { { "v", V23F, 1 } }, true },
    { "rotate", CP_SCAD_ROTATE, { { "a", ROT, 1 }, { "v", V3, 1 } }, true },
    { "projection", CP_SCAD_PROJECTION, { { "cut", B, 1 }, { "convexity", U, 0 } }, true },
    { "import", CP_SCAD_IMPORT, { { "file", S, 1 }, { "layer", S, 1 }, { "convexity", U, 1 }, { "center", B, 0 }, { "dpi", F, 0 }, DET } },
    { "surface", CP_SCAD_SURFACE, { { "file", S, 1 }, { "center", B, 1 }, { "invert", B, 0 }, { "convexity", U, 0 } } },
    { "text", CP_SCAD_TEXT, { { "text", S, 1 }, { "size", F, 0 }, { "font", S, 0 }, { "halign", S, 0 }, { "valign", S, 0 }, { "spacing", F, 0 }, { "tracking", F, 0 }, { "direction", S, 0 }, { "language", S, 0 }, { "script", S, 0 } } },
    { "union", CP_SCAD_UNION, {{0}}, true }, { "group", CP_SCAD_UNION, {{0}}, true }, { "render", CP_SCAD_UNION, {{0}}, true },
    { "difference", CP_SCAD_DIFFERENCE, {{0}}, true }, { "intersection", CP_SCAD_INTERSECTION, {{0}}, true }, { "hull", CP_SCAD_HULL, {{0}}, true },
};
#define NFN ((int)(sizeof FN / sizeof *FN))
static int npar(fn_t const *f) { int n = 0; while (n < 12 && f->p[n].name) n++; return n; }
static int natural(int kind) { switch (kind) { case B: return F_TRUE; case S: return F_STR; case V3: case V3F: return F_A3; case V2F: return F_A2; case V23: return F_A2; case V23F: return F_A2; default: return F_INT; } }
typedef struct { bool have; double x[4]; char const *s; bool vec; } got_t;
static bool conv(int kind, val_t const *v, got_t *g)
{
    g->have = true; g->vec = false;
    switch (kind) {
    case F: return toF(v, g->x);
    case B: if (!toU(v, g->x)) return false; g->x[0] = g->x[0] != 0; return true;
    case U: return toU(v, g->x);
    case S: g->s = v->id; return v->t == VSTR;
    case V3: return arrn(v, 3, g->x);
    case V3F: if (toF(v, g->x)) { g->x[1] = g->x[2] = g->x[0]; return true; } return arrn(v, 3, g->x);
    case V2F: if (toF(v, g->x)) { g->x[1] = g->x[0]; return true; } return arrn(v, 2, g->x);
    case V23: g->x[2] = 0; return arrn(v, 2, g->x) || arrn(v, 3, g->x);
    case V23F: if (toF(v, g->x)) { g->x[1] = g->x[2] = g->x[0]; return true; } g->x[2] = 1; return arrn(v, 2, g->x) || arrn(v, 3, g->x);
    case ROT: if (toF(v, g->x)) return true; g->vec = true; return arrn(v, 3, g->x);
    }
    return false;
}
static cp_syn_input_t in; static cp_syn_tree_t tree; static cp_err_t er; static cp_syn_file_t *file; static cp_scad_tree_t st; static cp_scad_opt_t so;
static bool run(unsigned unk, unsigned unkf, unsigned unsup)
{
    T[N] = 0; file = calloc(1, sizeof *file); sx_vfile("f.scad", T, N);
    CHECK(cp_syn_read(file, &er, &in, NULL, "f.scad", NULL), "reading failed");
    CHECK(cp_syn_parse(&er, &in, &tree, file), "text does not parse");
    so.err_unknown_param = unk; so.err_unknown_functor = unkf; so.err_unsupported_functor = unsup; st.opt = &so;
    bool ok = cp_scad_from_syn_tree(&st, &in, &er, &tree);
    D("%.*s -> %d %s\n", N, T, ok, er.msg.size ? er.msg.data : "");
    if (!ok) { CHECK(er.msg.size > 0, "error without a message"); cp_syn_loc_t l; CHECK(er.loc != NULL && cp_syn_get_loc(&l, &in, er.loc), "error without a location"); }
    return ok;
}
static void eqd(double a, double b) { CHECK(a == b, "parameter has a wrong value"); }
static double num(got_t const *g, int i, double d) { return g->have ? g->x[i] : d; }
static void eqs(char const *a, got_t const *g, char const *d) { char const *w = g->have ? g->s : d; CHECK((a == NULL) == (w == NULL) && (a == NULL || strcmp(a, w) == 0), "string parameter has a wrong value"); }
static void eqdet(cp_detail_t const *d, got_t const *g) { eqd(d->_fa, num(g, 0, 12)); eqd(d->_fs, num(g + 1, 0, 2)); eqd(d->_fn, num(g + 2, 0, 0)); }
static bool valid(fn_t const *f, got_t const *g)
{
    switch (f->type) {
    case CP_SCAD_SPHERE: case CP_SCAD_CIRCLE: return !(g[0].have && g[1].have);
    case CP_SCAD_CYLINDER: { bool r1 = g[1].have, r2 = g[2].have, d = g[4].have, d1 = g[5].have, d2 = g[6].have, r = g[7].have;
        return !(d && (d1 || d2)) && !(r && (r1 || r2)) && !(d && (r || r1 || r2)) && !(r1 && d1) && !(r2 && d2) && !(r && (d1 || d2)); }
    case CP_SCAD_LINEXT: case CP_SCAD_TRANSLATE: case CP_SCAD_MIRROR: case CP_SCAD_SCALE: case CP_SCAD_IMPORT: case CP_SCAD_SURFACE: case CP_SCAD_TEXT: return g[0].have;
    case CP_SCAD_ROTATE: return g[0].have && !(g[0].vec && g[1].have);
    default: return true;
    }
}
static void check_fields(fn_t const *f, got_t const *g, cp_scad_t *o)
{
    switch (f->type) {
    case CP_SCAD_CUBE: { cp_scad_cube_t *c = cp_scad_cast(*c, o); for (int i = 0; i < 3; i++) eqd(c->size.v[i], num(g, i, 1)); eqd(c->center, num(g + 1, 0, 0)); break; }
    case CP_SCAD_SQUARE: { cp_scad_square_t *c = cp_scad_cast(*c, o); for (int i = 0; i < 2; i++) eqd(c->size.v[i], num(g, i, 1)); eqd(c->center, num(g + 1, 0, 0)); break; }
    case CP_SCAD_SPHERE: { cp_scad_sphere_t *c = cp_scad_cast(*c, o); eqd(c->r, g[1].have ? g[1].x[0] / 2 : num(g, 0, 1)); eqdet(&c->detail, g + 2); break; }
    case CP_SCAD_CIRCLE: { cp_scad_circle_t *c = cp_scad_cast(*c, o); eqd(c->r, g[1].have ? g[1].x[0] / 2 : num(g, 0, 1)); eqdet(&c->detail, g + 2); break; }
    case CP_SCAD_CYLINDER: { cp_scad_cylinder_t *c = cp_scad_cast(*c, o); eqd(c->h, num(g, 0, 1)); eqd(c->center, num(g + 3, 0, 0));
        eqd(c->r1, g[4].have ? g[4].x[0] / 2 : g[5].have ? g[5].x[0] / 2 : g[7].have ? g[7].x[0] : num(g + 1, 0, 1));
        eqd(c->r2, g[4].have ? g[4].x[0] / 2 : g[6].have ? g[6].x[0] / 2 : g[7].have ? g[7].x[0] : num(g + 2, 0, 1)); eqdet(&c->detail, g + 8); break; }
    case CP_SCAD_LINEXT: { cp_scad_linext_t *c = cp_scad_cast(*c, o); eqd(c->height, g[0].x[0]); eqd(c->center, num(g + 1, 0, 0)); eqd(c->slices, num(g + 2, 0, 1)); eqd(c->twist, num(g + 3, 0, 0)); eqd(c->scale.x, num(g + 4, 0, 1)); eqd(c->scale.y, num(g + 4, 1, 1)); eqdet(&c->detail, g + 6); break; }
    case CP_SCAD_ROTEXT: { cp_scad_rotext_t *c = cp_scad_cast(*c, o); eqd(c->angle, num(g, 0, 360)); eqdet(&c->detail, g + 2); break; }
    case CP_SCAD_TRANSLATE: { cp_scad_translate_t *c = cp_scad_cast(*c, o); for (int i = 0; i < 3; i++) eqd(c->v.v[i], g->x[i]); break; }
    case CP_SCAD_MIRROR: { cp_scad_mirror_t *c = cp_scad_cast(*c, o); for (int i = 0; i < 3; i++) eqd(c->v.v[i], g->x[i]); break; }
    case CP_SCAD_SCALE: { cp_scad_scale_t *c = cp_scad_cast(*c, o); for (int i = 0; i < 3; i++) eqd(c->v.v[i], g->x[i]); break; }
    case CP_SCAD_ROTATE: { cp_scad_rotate_t *c = cp_scad_cast(*c, o); CHECK(c->around_n == !g->vec, "wrong kind of rotation");
        if (g->vec) for (int i = 0; i < 3; i++) eqd(c->n.v[i], g->x[i]);
        else { eqd(c->a, g->x[0]); for (int i = 0; i < 3; i++) eqd(c->n.v[i], num(g + 1, i, i == 2)); }
        break; }
    case CP_SCAD_PROJECTION: { cp_scad_projection_t *c = cp_scad_cast(*c, o); eqd(c->cut, num(g, 0, 0)); break; }
    case CP_SCAD_IMPORT: { cp_scad_import_t *c = cp_scad_cast(*c, o); eqs(cp_vchar_cstr(&c->file), g, ""); eqs(c->layer, g + 1, NULL); eqd(c->center, num(g + 3, 0, 0)); eqd(c->dpi, num(g + 4, 0, 72)); eqdet(&c->detail, g + 5); break; }
    case CP_SCAD_SURFACE: { cp_scad_surface_t *c = cp_scad_cast(*c, o); eqs(cp_vchar_cstr(&c->file), g, ""); eqd(c->center, num(g + 1, 0, 0)); break; }
    case CP_SCAD_TEXT: { cp_scad_text_t *c = cp_scad_cast(*c, o); eqs(c->text, g, ""); eqd(c->size, num(g + 1, 0, 10)); eqs(c->font, g + 2, "Nozzl3 Sans"); eqs(c->halign, g + 3, "left"); eqs(c->valign, g + 4, "baseline");
        eqd(c->spacing, num(g + 5, 0, 1)); eqd(c->tracking, num(g + 6, 0, 0)); eqs(c->direction, g + 7, "ltr"); eqs(c->language, g + 8, "en"); eqs(c->script, g + 9, "latin"); break; }
    }
}
/* one call with up to m arguments, positional, named in any order, or unknown; one of them of any form */
void h_args(void)
{
    int fi = ch("function", (int)sx_param("f0", 0), (int)sx_param("f1", NFN - 1)); fn_t const *f = &FN[fi]; int np = npar(f);
    int m = ch("arguments", 0, np ? (int)sx_param("m", 2) : 0), odd = m ? ch("odd", 0, m - 1) : 0; unsigned unk = (unsigned)ch("unknown", CP_ERR_FAIL, CP_ERR_IGNORE); /* both enums: fail, warn, ignore */
    got_t g[12]; memset(g, 0, sizeof g); bool err = false, named = false; int npos = 0, bad = -1; 
    while (np > 0 && npos < np && f->p[npos].pos) npos++;
    static char const *const MODS[] = { "", "#", "%", "*", "!" }; static unsigned const MB[] = { 0, CP_GC_MOD_HASH, CP_GC_MOD_PERCENT, CP_GC_MOD_AST, CP_GC_MOD_EXCLAM };
    int md = m == 0 ? ch("modifier", 0, 4) : 0; put(MODS[md]); int at = N; put(f->name); putc1('('); bool unkn = false; unsigned seen = 0;
    for (int i = 0; i < m; i++) {
        if (i) putc1(',');
        int which = ch("which", -2, np - 1); int p; char const *nm = NULL; /* -2 positional, -1 unknown name */
        if (which == -2) p = i; else if (which == -1) { p = -1; nm = "zz"; } else { p = which; nm = f->p[p].name; }
        if (nm) { put(nm); putc1('='); }
        int kind = p >= 0 && p < np ? f->p[p].kind : F;
        val_t v; int form = natural(kind); if (i == odd) form = ch("form", 0, NFORM - 1);
        value(&v, form);
        if (p >= 0 && p < np) { if (seen >> p & 1) return; /* the same parameter twice: unspecified */ seen |= 1u << p; }
        if (err) continue;
        if (!nm) { if (named || i >= npos) { err = true; bad = v.pos; continue; } }
        else named = true;
        if (p < 0) { unkn = true; if (unk == CP_ERR_FAIL) { err = true; bad = v.pos; } continue; }
        if (f->type == CP_SCAD_ROTATE && p == 0 && !(v.t == VARR || toF(&v, (double[]){0}))) { g[0].have = true; g[0].x[3] = -1; continue; }
        if (f->type == CP_SCAD_ROTATE && p == 0 && v.t == VARR && !arrn(&v, 3, (double[3]){0})) { g[0].have = g[0].vec = true; g[0].x[3] = -1; continue; }
        if (f->type == CP_SCAD_ROTATE && p == 0) g[0].x[3] = 0;
        if (!conv(kind, &v, &g[p])) { err = true; bad = v.pos; }
    }
    putc1(')'); if (f->child) put("{cube();sphere();}"); else putc1(';');
    if (!err && !valid(f, g)) err = true;
    if (!err && f->type == CP_SCAD_ROTATE && g[0].x[3] < 0) err = true;
    bool ok = run(unk, CP_ERR_FAIL, CP_ERR_FAIL);
    CHECK(ok == !err, err ? "wrong arguments accepted" : "documented arguments rejected");
    if (!ok) { if (bad >= 0) { int o = (int)(er.loc - file->content.data); CHECK(o >= bad && o < N, "error is located before the bad argument"); } sx_reach("error"); return; }
    CHECK(er.msg.size == 0, "message without an error");
    CHECK(st.toplevel.size == 1, "wrong number of objects"); cp_scad_t *o = st.toplevel.data[0];
    CHECK((int)o->type == f->type, "wrong kind of object"); CHECK(o->loc == file->content.data + at, "object has a wrong location");
    CHECK(o->modifier == MB[md], "wrong modifier"); CHECK(st.root == (md == 4 ? o : NULL), "wrong root object");
    if (f->child) { cp_scad_union_t *c = (cp_scad_union_t*)o; CHECK(c->child.size == 2 && c->child.data[0]->type == CP_SCAD_CUBE && c->child.data[1]->type == CP_SCAD_SPHERE, "wrong children"); }
    check_fields(f, g, o); sx_reach(unkn ? "unknown ignored" : "object");
}
/* names of scene functions: exactly the documented ones */
void h_name(void)
{
    static char const *const NM[] = { "circle", "color", "cube", "cylinder", "difference", "group", "hull", "import", "import_stl", "intersection", "linear_extrude", "mirror", "multmatrix", "polygon", "polyhedron", "projection", "render", "rotate", "rotate_extrude", "scale", "sphere", "square", "surface", "text", "translate", "union" };
    int w = ch("name", 0, 25), n = (int)strlen(NM[w]), p = ch("at", 0, n), how = ch("how", 0, 2); unsigned unk = (unsigned)ch("unknown", CP_ERR_FAIL, CP_ERR_IGNORE);
    char id[32]; memcpy(id, NM[w], n); int c = (int)sx_int("char", 0, 37); int b = c < 26 ? 'a' + c : c < 36 ? '0' + c - 26 : c == 36 ? '_' : 'Z';
    if (how == 0) { if (p == n) id[n++] = (char)b; else id[p] = (char)b; }
    else if (how == 1) { memmove(id + p + 1, id + p, n - p); id[p] = (char)b; n++; }
    else { if (p == n) return; memmove(id + p, id + p + 1, n - p - 1); n--; }
    if (id[0] >= '0' && id[0] <= '9') return;
    bool known = false; id[n] = 0; for (int i = 0; i < 26; i++) known |= strcmp(id, NM[i]) == 0;
    if (strcmp(id, "use") == 0 || strcmp(id, "module") == 0 || strcmp(id, "function") == 0 || strcmp(id, "include") == 0) return;
    if (known) { sx_reach("known"); return; } /* the known ones are checked by h_args */
    static char const *const US[] = { "echo", "let", "if", "for", "children", "assert", "assign", "offset", "resize", "minkowski", "intersection_for" };
    bool us = false; for (int i = 0; i < 11; i++) us |= strcmp(id, US[i]) == 0;
    if (us) return;
    N = 0; put("group(){"); int at = N; memcpy(T + N, id, n); N += n; put("(2) cube();}");
    bool ok = run(CP_ERR_FAIL, unk, CP_ERR_WARN);
    CHECK(ok == (unk != CP_ERR_FAIL), "unknown function is not treated as requested");
    if (ok) { cp_scad_union_t *u = cp_scad_cast(*u, st.toplevel.data[0]); CHECK(u->child.size == 0, "unknown function leaves an object"); sx_reach("ignored"); } else { CHECK(er.loc == file->content.data + at, "wrong error location"); sx_reach("rejected"); }
}
/* multmatrix */
void h_matrix(void)
{
    int rows = ch("rows", 0, 5), odd = ch("odd", 0, 4), oc = ch("odd columns", 0, 5), cols = ch("columns", 2, 4), m[5][5], last = ch("last", 0, 1);
    bool ok = rows >= 2 && rows <= 4; N = 0; put("multmatrix(["); double e[4][4] = { {1,0,0,0}, {0,1,0,0}, {0,0,1,0}, {0,0,0,1} };
    for (int y = 0; y < rows; y++) {
        int n = y == odd ? oc : cols; if (n < 2 || n > 4) ok = false;
        if (y) putc1(',');
        putc1('['); for (int x = 0; x < n; x++) { if (x) putc1(','); int d = y == 3 && last ? x == 3 : (x + y) % 2 ? (int)sx_int("digit", 0, 9) : x + 1; m[y][x < 5 ? x : 4] = d; putc1('0' + d); if (y < 4 && x < 4) e[y][x] = d; } putc1(']');
    }
    put("]) cube();"); (void)m;
    if (ok && rows == 4 && !(e[3][0] == 0 && e[3][1] == 0 && e[3][2] == 0 && e[3][3] == 1)) ok = false;
    bool r = run(CP_ERR_FAIL, CP_ERR_FAIL, CP_ERR_FAIL); CHECK(r == ok, ok ? "documented matrix rejected" : "wrong matrix accepted");
    if (!r) { sx_reach("rejected"); return; }
    cp_scad_multmatrix_t *c = cp_scad_cast(*c, st.toplevel.data[0]);
    for (int y = 0; y < 3; y++) { for (int x = 0; x < 3; x++) eqd(c->m.b.m[y][x], e[y][x]); eqd(c->m.w.v[y], e[y][3]); }
    CHECK(c->child.size == 1, "wrong children"); sx_reach("matrix");
}
/* polygon and polyhedron: points, paths, faces */
void h_points(void)
{
    bool solid = ch("solid", 0, 1); int np = ch("points", 0, 4), nf = ch("faces", -2, 2), form = ch("form", 0, solid ? 4 : 3);
    int L[2], I[2][5], P[4][3]; N = 0; put(solid ? "polyhedron(" : "polygon("); bool ok = true, fc = solid;
    int dim = solid ? 3 : 2, bd = form == 2 ? ch("bad dim", 0, 4) : dim; /* form 2: the last point has another size */
    if (ch("named", 0, 1)) put("points="), fc = true;
    putc1('['); for (int i = 0; i < np; i++) { if (i) putc1(','); putc1('['); int k = i == np - 1 ? bd : dim; if (k != dim) ok = false; for (int j = 0; j < k; j++) { if (j) putc1(','); int d = (int)sx_int("digit", 0, 9); if (j < 3) P[i][j] = d; putc1('0' + d); } putc1(']'); } putc1(']');
    if (nf == -1) { put(solid ? ",faces=undef" : ",paths=undef"); if (solid) ok = false; }
    if (nf == -2 && solid) ok = false;
    if (nf >= 0) {
        put(!fc ? "," : solid ? form == 4 ? ",triangles=" : ",faces=" : ",paths="); putc1('[');
        for (int i = 0; i < nf; i++) {
            if (i) putc1(',');
            L[i] = form == 1 && i == 0 ? ch("length", 0, 5) : 3; putc1('['); if (L[i] < 3) ok = false;
            for (int j = 0; j < L[i]; j++) { if (j) putc1(','); int d = (int)sx_int("index", 0, 9); I[i][j] = d; putc1('0' + d); if (d >= np) ok = false; } putc1(']');
        }
        putc1(']');
    }
    if (form == 3) put(",convexity=3");
    put(");");
    bool r = run(CP_ERR_FAIL, CP_ERR_FAIL, CP_ERR_FAIL); CHECK(r == ok, ok ? "documented arguments rejected" : "wrong arguments accepted");
    if (!r) { sx_reach("rejected"); return; }
    unsigned bad = 0;
    if (solid) {
        cp_scad_polyhedron_t *c = cp_scad_cast(*c, st.toplevel.data[0]); CHECK((int)c->points.size == np && (int)c->faces.size == nf, "wrong number of points or faces");
        for (int i = 0; i < np; i++) for (int j = 0; j < 3; j++) bad |= !(c->points.data[i].coord.v[j] == P[i][j]);
        for (int i = 0; i < nf; i++) { CHECK((int)c->faces.data[i].points.size == L[i], "wrong face size"); for (int j = 0; j < L[i]; j++) bad |= c->faces.data[i].points.data[j].ref != &c->points.data[I[i][j]]; }
        sx_reach("polyhedron");
    }
    else {
        cp_scad_polygon_t *c = cp_scad_cast(*c, st.toplevel.data[0]); CHECK((int)c->points.size == np && (int)c->paths.size == (nf < 0 ? 1 : nf), "wrong number of points or paths");
        for (int i = 0; i < np; i++) for (int j = 0; j < 2; j++) bad |= !(c->points.data[i].coord.v[j] == P[i][j]);
        if (nf < 0) { CHECK((int)c->paths.data[0].points.size == np, "default path has a wrong size"); for (int j = 0; j < np; j++) bad |= c->paths.data[0].points.data[j].ref != &c->points.data[j]; }
        for (int i = 0; i < nf; i++) { CHECK((int)c->paths.data[i].points.size == L[i], "wrong path size"); for (int j = 0; j < L[i]; j++) bad |= c->paths.data[i].points.data[j].ref != &c->points.data[I[i][j]]; }
        sx_reach("polygon");
    }
    CHECK(bad == 0, "points or indices differ from the text");
}
/* color: components, alpha, undef, hex strings */
void h_color(void)
{
    int form = ch("form", 0, 3), al = ch("alpha", 0, 2); N = 0; put("color("); bool ok = true, valid = true; int want[4] = { 0, 0, 0, 255 };
    double x[5]; int n = 0;
    if (form == 0) { put("undef"); valid = false; }
    else if (form == 1) {
        n = ch("components", 0, 5); int fr = n ? ch("free", 0, n - 1) : 0; putc1('['); for (int i = 0; i < n; i++) { if (i) putc1(','); int d = i == fr ? ch("tenth", 0, 11) : i * 5 % 11; x[i] = d / 10.0; char b[16]; snprintf(b, sizeof b, "%d.%d", d / 10, d % 10); put(b); if (d > 10) ok = false; } putc1(']');
        if (n < 3 || n > (al ? 3 : 4)) ok = false;
        else for (int i = 0; i < n; i++) want[i] = (int)lrint(x[i] * 255);
    }
    else if (form == 2) {
        n = ch("digits", 0, 8); int at = ch("at", 0, n); put("\"#"); int h[8]; for (int i = 0; i < n; i++) { h[i] = (int)sx_int("hex", 0, i == at ? 16 : 15); putc1(h[i] < 10 ? '0' + h[i] : (i & 1 ? 'a' : 'A') + h[i] - 10); if (h[i] > 15) ok = false; } putc1('"');
        if (n == 6) for (int i = 0; i < 3; i++) want[i] = h[2*i] * 16 + h[2*i+1];
        else if (n == 3) for (int i = 0; i < 3; i++) want[i] = h[i] * 17;
        else ok = false;
    }
    else { n = ch("value", 0, 2); put(n == 0 ? "3" : n == 1 ? "\"reed\"" : "red"); ok = false; }
    if (al) { put(al == 1 ? ",alpha=" : ","); int d = form == 0 || n == 3 ? ch("alpha", -1, 11) : 4; char b[16]; snprintf(b, sizeof b, "%s%d.%d", d < 0 ? "-" : "", (d < 0 ? -d : d) / 10, (d < 0 ? -d : d) % 10); put(b); want[3] = (int)lrint(d / 10.0 * 255); if (d < 0 || d > 10) ok = false; }
    put(") cube();");
    bool r = run(CP_ERR_FAIL, CP_ERR_FAIL, CP_ERR_FAIL); CHECK(r == ok, ok ? "documented colour rejected" : "wrong colour accepted");
    if (!r) { sx_reach("rejected"); return; }
    cp_scad_color_t *c = cp_scad_cast(*c, st.toplevel.data[0]); CHECK(c->valid == valid, "wrong validity of the colour"); CHECK(c->child.size == 1, "wrong children");
    unsigned bad = c->rgba.a != want[3]; if (valid) for (int i = 0; i < 3; i++) bad |= c->rgba.c[i] != want[i];
    CHECK(bad == 0, "wrong colour value"); sx_reach("colour");
}
/* many points, faces or paths, corners, children, statements */
static void pn(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); put(b); }
void h_many(void)
{
    static int const SZ[] = { 6, 9, 17, 33, 66, 130 }; int n = SZ[ch("size", 0, (int)sx_param("sizes", 6) - 1)], k = ch("shape", 0, 4), at = ch("at", 0, 2) * (n - 1) / 2; N = 0; bool ok = true;
    int d = (int)sx_int("digit", 0, 9), e = (int)sx_int("digit", 0, 9); bool solid = k >= 2; int ix = d * 10 + e, np = k == 4 ? 4 : n, nf = k == 0 ? -1 : k == 1 ? 1 : k == 2 ? 2 : n, L = k == 1 || k == 2 ? n : 3;
    if (k == 3 && n > 66) sx_end();
    put(solid ? "polyhedron([" : "polygon([");
    for (int i = 0; i < np; i++) { if (i) putc1(','); putc1('['); pn(i); putc1(','); if (i == at && k == 0) { putc1('0' + d); putc1('0' + e); } else pn(i * i % 97 + 100); if (solid) { putc1(','); pn(i % 7); } putc1(']'); }
    putc1(']');
    if (nf >= 0) { putc1(','); putc1('['); for (int i = 0; i < nf; i++) { if (i) putc1(','); putc1('['); for (int j = 0; j < L; j++) { if (j) putc1(','); if (i == (nf > 2 ? at : 0) && j == (L > 3 ? at : 1)) { putc1('0' + d); putc1('0' + e); if (ix >= np) ok = false; } else pn((i + j) % np); } putc1(']'); } putc1(']'); }
    put(");");
    bool r = run(CP_ERR_FAIL, CP_ERR_FAIL, CP_ERR_FAIL); CHECK(r == ok, ok ? "documented arguments rejected" : "wrong arguments accepted");
    if (!r) { sx_reach("rejected"); return; }
    unsigned bad = 0;
#define PT(c) do { CHECK((int)(c)->points.size == np, "wrong number of points"); for (int i = 0; i < np; i++) { bad |= (c)->points.data[i].coord.v[0] != i; bad |= (c)->points.data[i].coord.v[1] != (i == at && k == 0 ? ix : i * i % 97 + 100); if (solid) bad |= (c)->points.data[i].coord.v[2] != i % 7; } } while (0)
#define PF(l, what_) do { CHECK((int)(l).size == (nf < 0 ? 1 : nf), what_); for (int i = 0; i < (int)(l).size; i++) { CHECK((int)(l).data[i].points.size == (nf < 0 ? np : L), what_); for (int j = 0; j < (int)(l).data[i].points.size; j++) bad |= (l).data[i].points.data[j].ref != &c->points.data[nf < 0 ? j : i == (nf > 2 ? at : 0) && j == (L > 3 ? at : 1) ? ix : (i + j) % np]; } } while (0)
    if (solid) { cp_scad_polyhedron_t *c = cp_scad_cast(*c, st.toplevel.data[0]); PT(c); PF(c->faces, "wrong number of faces or corners"); } else { cp_scad_polygon_t *c = cp_scad_cast(*c, st.toplevel.data[0]); PT(c); PF(c->paths, "wrong number of paths or corners"); }
    CHECK(bad == 0, "points or indices differ from the text"); sx_reach(solid ? "polyhedron" : "polygon");
}
