/* C28: dumped scenes read back as the same scene */
#define TMAX 20000
#include "scene.h"
#include "capture.h"
#include <stdarg.h>
typedef unsigned long long u64;
#include <hob3lbase/stream.h>
/* the dumped text: numbers that are symbolic are written digit by digit, or for every value */
static char U[2][65536]; static int nu;
static void uc(char c) { CHECK(nu < (int)sizeof U[0] - 1, "dump is too large"); U[0][nu++] = c; }
static void us(char const *s) { while (*s) uc(*s++); }
static void u_int(ll v)
{
    if (!sx_is_symbolic((u64)v)) { char b[32]; snprintf(b, sizeof b, "%lld", v); us(b); return; }
    if (v < 0) { uc('-'); v = -v; } if (v >= 100) { char b[32]; snprintf(b, sizeof b, "%lld", (ll)sx_concretize((u64)v)); us(b); return; }
    if (v >= 10) uc((char)('0' + v / 10)); uc((char)('0' + v % 10));
}
static void u_dbl(double d, char const *fmt)
{
    u64 w; memcpy(&w, &d, 8);
    if (sx_is_symbolic(w)) { double f = floor(d); if ((f == d) & (d > -100) & (d < 100)) { u_int((ll)d); return; } d = sx_concretize_d(d); }
    char b[64]; snprintf(b, sizeof b, fmt, d); us(b);
}
static void u_vprintf(void *data, char const *f, va_list va)
{
    (void)data;
    for (; *f; f++) {
        if (*f != '%') { uc(*f); continue; }
        char fm[16]; int n = 0, width = 0, lng = 0; fm[n++] = *f++;
        for (;; f++) { if (*f == '*') width = va_arg(va, int); else if (*f == 'l' || *f == 'z') lng = 1; else if ((*f >= '0' && *f <= '9') || *f == '.') fm[n++] = *f; else break; CHECK(n < 12, "unknown conversion"); }
        fm[n++] = *f; fm[n] = 0;
        switch (*f) {
        case '%': uc('%'); break;
        case 'd': u_int(lng ? va_arg(va, ll) : va_arg(va, int)); break;
        case 'u': u_int(lng ? va_arg(va, ll) : (ll)va_arg(va, unsigned)); break;
        case 'c': uc((char)va_arg(va, int)); break;
        case 's': { char const *s = va_arg(va, char const *); CHECK(s != NULL, "a missing string is printed"); for (int i = (int)strlen(s); i < width; i++) uc(' '); us(s); break; }
        case 'g': case 'f': case 'e': u_dbl(va_arg(va, double), fm); break;
        default: CHECK(0, "unknown conversion");
        } }
}
static void u_write(void *data, void const *b, size_t n) { (void)data; for (size_t i = 0; i < n; i++) uc(((char const*)b)[i]); }
static cp_stream_t us_ = { NULL, u_vprintf, u_write };
/* ---- scenes ---- */
/* '@' is a digit, one of which is symbolic; '~' is a printable character, symbolic */
static int ats, which;
static void tput(char const *t)
{
    for (; *t; t++) {
        if (*t == '@') { int d = 1 + ats * 3 % 7; if (ats++ == which) pdig(0, 9); else pint(d); }
        else if (*t == '~') { if (ats++ == which) { int c = (int)sx_int("char", 32, 126); sx_assume(c != '"'); sx_assume(c != '\\'); if (N && strstr(T, "use <")) sx_assume(c != '>'); T[N++] = (char)c; } else putc1('k'); }
        else putc1(*t); }
}
static int count(char const *t) { int n = 0; for (; *t; t++) n += (*t == '@') | (*t == '~'); return n; }
static char const *const SC[] = {
    "cube(@.5);", "cube([@,1@,.@5]);", "cube(size=[@,0.1,2e-3],center=true);", "sphere(@);", "sphere(d=@,$fn=@,$fa=3.125,$fs=.33333333333);", "sphere(r=1.@,$fa=@.5);",
    "linear_extrude(@)circle(@);", "linear_extrude(height=2.@,center=true,slices=@,twist=12.3456789@,scale=[1.@,@],$fn=@)circle(d=@,$fn=@,$fs=.123456789);", "linear_extrude(2,scale=.@)square(@);", "linear_extrude(2)square(size=[@,.@],center=true);",
    "cylinder(@);", "cylinder(h=@,r=2.@,$fn=@,$fa=33.33333333);", "cylinder(h=1,r1=@,r2=.@,center=true);", "cylinder(h=1,d1=@,d2=3,center=false,$fs=.7654321);", "cylinder(2,@,1);",
    "polyhedron(points=[[0,0,0],[@,0.1,-@],[0,1.5,0],[0,0,1]],faces=[[0,1,2],[0,3,1],[0,2,3],[1,3,2]]);", "polyhedron([[0,0,@],[1,0,0],[0,1,0],[0,0,1]],triangles=[[0,1,2],[0,3,1],[0,2,3],[1,3,2]],convexity=@);",
    "linear_extrude(1)polygon([[0,0],[5.@,0],[0,@]]);", "linear_extrude(1)polygon(points=[[0,0],[5,0],[0,5],[1,1],[2,1.@],[1,2]],paths=[[0,1,2],[5,4,3]]);", "linear_extrude(1)polygon([[0,@],[1,0],[0,1]],undef);", "linear_extrude(1)polygon([[0,@],[1,0],[0,1]],[]);",
    "rotate_extrude(angle=1@.123456789,$fn=@)translate([2,0])square(1);", "rotate_extrude($fn=5,$fa=@,$fs=1.23456789)square(@);", "hull(){cube(@);sphere(1);}", "projection(cut=true)cube(@);", "projection(cut=false)cube(@);",
    "multmatrix([[1,@,3,4.@],[0,1.5,0,-@],[.1,0,1,6]])cube(1);", "multmatrix(m=[[@,2,3,4],[0,1,@,5],[0,0,1,1e-7],[0,0,0,1]])sphere(1);",
    "translate([@,-@.25])cube(1);", "translate(v=[1,1e6,1.@])cube(1);", "mirror([@,1,0])cube(1);", "mirror(v=[0,.@])cube(1);", "scale(@.5)cube(1);", "scale([@,2])cube(1);", "scale(v=[1,-2,.@])cube(1);",
    "rotate(3@)cube(1);", "rotate([@,0,33.333333333])cube(1);", "rotate(a=12.3456789@,v=[@,1,-.5])cube(1);", "rotate(0)cube(1);",
    "color(\"red\")cube(@);", "color(\"#12@4a6\",.@)cube(1);", "color([.@,0.00392157,1,.5])cube(1);", "color(c=[1,.3@,0],alpha=0.@)cube(1);", "color(undef,alpha=.@)cube(@);", "color(undef)cube(@);",
    "text(\"a~b\\\"c\");", "text(text=\"\",size=@.123456789,font=\"~\",halign=\"right\",valign=\"top\",direction=\"rtl\",language=\"x\",script=\"~\",spacing=1.@,tracking=.@,$fn=@);",
    "import(\"a~.stl\");", "import(file=\"x.svg\",layer=\"la~\",convexity=3,center=true,id=\"~\\n\",dpi=9@,$fa=1,$fs=.@,$fn=@);", "surface(\"a~\");", "surface(file=\"b\",center=true,invert=true,convexity=@);",
    "intersection(){union(){cube(@);#translate([3,0,0])cube(1);}union(){sphere(2);cube(@);}}", "difference(){group(){cube(@);%cube(2);sphere(4);}union(){sphere(1);cube(@);}cube(5);}", "intersection(){difference(){cube(@);sphere(1);}union(){intersection(){cube(2);union(){cube(3);sphere(1);}}cube(@);}cube(4);}", "difference(){difference(){union(){cube(@);cube(3);}cube(2);}intersection(){union(){cube(1);sphere(@);}cube(4);}}", "intersection(){{}cube(@);}", "difference(){union(){}cube(@);}", "linear_extrude(1)difference(){square(@);union(){circle(1);square(2);}}", "linear_extrude(2){square(@);intersection(){union(){circle(3);square(@);}polygon(points=[[0,0],[5,0],[0,5],[1,1],[2,1],[1,2]],paths=[[0,1,2],[5,4,3]]);}}",
    "union();", "group(){}", "difference(){cube(@);{sphere(1);cube(@);}%sphere(2);}", "intersection(){union(){cube(1);!#cube(@);}sphere(1);}", "{}", "{cube(@);}", ";", "cube(@);;sphere(1);", "sphere(PI);cube(PI);",
};
static char const *const SY[] = {
    "for(i=[1:@:5])cube(i);", "for(i=[@:3])cube(i);", "echo(\"a~\",[1,[@,-3],[]],undef,x=true);", "foo();", "$x(a,_b=c1,$d=[e]);", "x(-@,+@,.5,5.,1e3,-0.0@,123456789012);", "x(9223372036854775807,-9223372036854775807);", "module_(){a(){b();c(1){}}d();}", "use <a~.scad>\nx(@);", "x()y()z(@);", "*x(){!y()%z();#*w();}", "x(@,);x([@,]);", "// c\nx(/*~*/@);", "{ {} { x(@); } }",
};
/* deep and long ones */
static void many(int syn)
{
    static int const CN[] = { 5, 9, 16, 17, 33, 65, 130 }; int k = ch("kind", 0, 5 + syn), n = CN[ch("count", 0, k == 0 || k == 6 ? 4 : 6)], sy = ch("symbolic", 0, 1), at_ = ch("where", 0, 2) * (n - 1) / 2; char b[64];
    static char const *const W[] = { "translate([1,0.1,-2.5])", "union(){sphere(2.25);", "rotate([0,30,0.125])", "difference(){cube(9);", "color(\"red\",0.3)", "group(){", "intersection(){cube([4,5,.6]);", "scale([1,2,.3])", "hull(){cube(2);" };
    switch (k) {
    case 0: for (int i = 0; i < n; i++) put(W[i % 9]); put("cube("); if (sy) pdig(1, 9); else put("1.25"); put(");"); for (int i = n - 1; i >= 0; i--) if (strchr(W[i % 9], '{')) put("}"); break;
    case 1: put("difference(){"); for (int i = 0; i < n; i++) { put(i % 3 ? "sphere(" : "cube("); if (i == at_ && sy) pdig(1, 9); else { snprintf(b, sizeof b, "%d.%d", i + 1, i % 7); put(b); } put(");"); } put("}"); break;
    case 2: put("linear_extrude(1)polygon([[0,0]"); for (int i = 0; i < n; i++) { snprintf(b, sizeof b, ",[%d,", i + 1); put(b); snprintf(b, sizeof b, "%d.", i * i); put(b); if (i == at_ && sy) pdig(0, 9); else pint(i % 10); put("]"); } put("]);"); break;
    case 3: put("polyhedron(points=[[0,0,3],[0,0,-3]"); for (int i = 0; i < n; i++) { snprintf(b, sizeof b, ",[%.5f,%.5f,0]", 5 * cos(0.1 + 6.283185307 * i / n), 5 * sin(0.1 + 6.283185307 * i / n)); put(b); } put("],faces=["); for (int i = 0; i < n; i++) { int j = (i + 1) % n; snprintf(b, sizeof b, "%s[0,%d,%d],[1,%d,%d]", i ? "," : "", j + 2, i + 2, i + 2, j + 2); put(b); } put("]);"); break;
    case 4: put("text(\""); for (int i = 0; i < 3 * n; i++) { if (i == at_ && sy) { char c = (char)sx_int("byte", ' ', '~'); sx_assume(c != '"' && c != '\\'); putc1(c); } else put(i % 11 == 3 ? "\\n" : i % 13 == 5 ? "\\\"" : i % 17 == 1 ? "\xc3\xa4" : "x"); } put("\");"); break;
    case 5: for (int i = 0; i < n; i++) { static char const *const M[] = { "", "#", "%", "*" }; put(M[i & 3]); put("translate([0,0,"); if (i == at_ && sy) pdig(1, 9); else pint(i); put(i % 5 ? "])cube([1,2,3]);" : "])cylinder(h=2,r1=.5,r2=1,$fn=6);"); } break;
    default: put("echo("); for (int i = 0; i < n; i++) put("[1,"); if (sy) pdig(1, 9); else put("true"); for (int i = 0; i < n; i++) put(i & 1 ? ",-2.5]" : ",\"a\",undef]"); for (int i = 0; i < n; i++) { snprintf(b, sizeof b, ",a%d=[%d:%d]", i, i, 2 * i); put(b); } put(");"); break;
    }
}
static void text(int syn)
{
    if (sx_param("many", 0)) { many(syn); return; }
    int n = (int)(sizeof SC / sizeof *SC), m = syn ? (int)(sizeof SY / sizeof *SY) : 0, k = ch("item", 0, n + m - 1); char const *t = k < n ? SC[k] : SY[k - n]; which = -1; int c = count(t); which = c ? ch("symbolic", 0, c - 1) : -1;
    int md = ch("modifier", 0, 4); static char const *const M[] = { "", "#", "%", "*", "!" }; if (!((t[0] >= 'a' && t[0] <= 'z') || t[0] == '$') || t[0] == 'u') { md = 0; } if (md == 4 && strchr(t, '!')) md = 0;
    int w = ch("wrap", 0, 3); if (w == 1) put("union(){sphere(3);"); if (w == 2) put("color(\"blue\")difference(){"); if (w == 3) put("cube(7);"); if (w && w < 3 && (strstr(t, "use") || *t == ';')) { N = 0; w = 0; }
    put(M[md]); tput(t); if (w == 1) put("cube(3);}"); if (w == 2) put("}"); if (w == 3) put("cube(4);");
}
/* ---- comparison ---- */
static int num_eq(double a, double b) { double d = a - b, e = a < 0 ? -a : a; e = e * 4e-16; if (d < 0) d = -d; return d <= e; }
static int str_eq(char const *a, char const *b) { if (!a || !b) return a == b; size_t n = strlen(a), m = strlen(b); if (n != m) return 0; int bad = 0; for (size_t i = 0; i < n; i++) bad |= a[i] != b[i]; return !bad; }
static int val_eq(cp_syn_value_t *a, cp_syn_value_t *b)
{
    if (!a || !b) return a == b; double x = 0, y = 0; int nx = 0, ny = 0;
    if (a->type == CP_SYN_VALUE_INT) { x = (double)cp_syn_cast(cp_syn_value_int_t, a)->value; nx = 1; } if (b->type == CP_SYN_VALUE_INT) { y = (double)cp_syn_cast(cp_syn_value_int_t, b)->value; ny = 1; }
    if (nx & ny) return cp_syn_cast(cp_syn_value_int_t, a)->value == cp_syn_cast(cp_syn_value_int_t, b)->value;
    if (a->type == CP_SYN_VALUE_FLOAT) { x = cp_syn_cast(cp_syn_value_float_t, a)->value; nx = 1; } if (b->type == CP_SYN_VALUE_FLOAT) { y = cp_syn_cast(cp_syn_value_float_t, b)->value; ny = 1; }
    if (nx & ny) return num_eq(x, y);
    if (a->type != b->type) return 0;
    switch (a->type) {
    case CP_SYN_VALUE_ID: return str_eq(cp_syn_cast(cp_syn_value_id_t, a)->value, cp_syn_cast(cp_syn_value_id_t, b)->value);
    case CP_SYN_VALUE_STRING: return str_eq(cp_syn_cast(cp_syn_value_string_t, a)->value, cp_syn_cast(cp_syn_value_string_t, b)->value);
    case CP_SYN_VALUE_RANGE: { cp_syn_value_range_t *p = cp_syn_cast(*p, a), *q = cp_syn_cast(*q, b); return val_eq(p->start, q->start) && val_eq(p->inc, q->inc) && val_eq(p->end, q->end); }
    case CP_SYN_VALUE_ARRAY: { cp_syn_value_array_t *p = cp_syn_cast(*p, a), *q = cp_syn_cast(*q, b); if (p->value.size != q->value.size) return 0; int ok = 1; for (size_t i = 0; i < p->value.size; i++) ok &= val_eq(p->value.data[i], q->value.data[i]); return ok; }
    default: return 0; }
}
static int item_eq(cp_syn_stmt_item_t *a, cp_syn_stmt_item_t *b)
{
    if (a->modifier != b->modifier || !str_eq(a->functor, b->functor) || a->arg.size != b->arg.size || a->body.size != b->body.size) return 0; int ok = 1;
    for (size_t i = 0; i < a->arg.size; i++) ok &= str_eq(a->arg.data[i]->key, b->arg.data[i]->key) & val_eq(a->arg.data[i]->value, b->arg.data[i]->value);
    for (size_t i = 0; i < a->body.size; i++) ok &= item_eq(a->body.data[i], b->body.data[i]); return ok;
}
static int det_eq(cp_detail_t *a, cp_detail_t *b) { return (a->_fn == b->_fn) & num_eq(a->_fa, b->_fa) & num_eq(a->_fs, b->_fs); }
static int v3_eq(cp_vec3_t *a, cp_vec3_t *b) { return num_eq(a->x, b->x) & num_eq(a->y, b->y) & num_eq(a->z, b->z); }
static int scad_eq(cp_scad_t *a, cp_scad_t *b);
static int child_eq(cp_v_scad_p_t *a, cp_v_scad_p_t *b) { if (a->size != b->size) return 0; int ok = 1; for (size_t i = 0; i < a->size; i++) ok &= scad_eq(a->data[i], b->data[i]); return ok; }
#define GET(t) t *p = cp_scad_cast(*p, a), *q = cp_scad_cast(*q, b)
#define NE(f) num_eq(p->f, q->f)
static int scad_eq(cp_scad_t *a, cp_scad_t *b)
{
    if (a->type != b->type || a->modifier != b->modifier) return 0;
    switch (a->type) {
    case CP_SCAD_UNION: case CP_SCAD_DIFFERENCE: case CP_SCAD_INTERSECTION: case CP_SCAD_HULL: return child_eq(&((cp_scad_rec_t*)a)->child, &((cp_scad_rec_t*)b)->child);
    case CP_SCAD_TRANSLATE: case CP_SCAD_MIRROR: case CP_SCAD_SCALE: { cp_scad_translate_t *p = (void*)a, *q = (void*)b; return v3_eq(&p->v, &q->v) & child_eq(&p->child, &q->child); }
    case CP_SCAD_ROTATE: { GET(cp_scad_rotate_t); return (p->around_n == q->around_n) & v3_eq(&p->n, &q->n) & NE(a) & child_eq(&p->child, &q->child); }
    case CP_SCAD_MULTMATRIX: { GET(cp_scad_multmatrix_t); int ok = v3_eq(&p->m.w, &q->m.w); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) ok &= NE(m.b.m[i][j]); return ok & child_eq(&p->child, &q->child); }
    case CP_SCAD_SPHERE: { GET(cp_scad_sphere_t); return NE(r) & det_eq(&p->detail, &q->detail); }
    case CP_SCAD_CIRCLE: { GET(cp_scad_circle_t); return NE(r) & det_eq(&p->detail, &q->detail); }
    case CP_SCAD_CUBE: { GET(cp_scad_cube_t); return v3_eq(&p->size, &q->size) & (p->center == q->center); }
    case CP_SCAD_SQUARE: { GET(cp_scad_square_t); return NE(size.x) & NE(size.y) & (p->center == q->center); }
    case CP_SCAD_CYLINDER: { GET(cp_scad_cylinder_t); return NE(h) & NE(r1) & NE(r2) & (p->center == q->center) & det_eq(&p->detail, &q->detail); }
    case CP_SCAD_POLYHEDRON: { GET(cp_scad_polyhedron_t); if (p->points.size != q->points.size || p->faces.size != q->faces.size) return 0; int ok = 1; for (size_t i = 0; i < p->points.size; i++) ok &= v3_eq(&p->points.data[i].coord, &q->points.data[i].coord);
        for (size_t i = 0; i < p->faces.size; i++) { cp_scad_face_t *f = &p->faces.data[i], *g = &q->faces.data[i]; if (f->points.size != g->points.size) return 0; for (size_t j = 0; j < f->points.size; j++) ok &= f->points.data[j].ref - p->points.data == g->points.data[j].ref - q->points.data; } return ok; }
    case CP_SCAD_POLYGON: { GET(cp_scad_polygon_t); if (p->points.size != q->points.size || p->paths.size != q->paths.size) return 0; int ok = 1; for (size_t i = 0; i < p->points.size; i++) ok &= NE(points.data[i].coord.x) & NE(points.data[i].coord.y);
        for (size_t i = 0; i < p->paths.size; i++) { cp_scad_path_t *f = &p->paths.data[i], *g = &q->paths.data[i]; if (f->points.size != g->points.size) return 0; for (size_t j = 0; j < f->points.size; j++) ok &= f->points.data[j].ref - p->points.data == g->points.data[j].ref - q->points.data; } return ok; }
    case CP_SCAD_IMPORT: { GET(cp_scad_import_t); return str_eq(p->file_tok, q->file_tok) & str_eq(p->id_tok, q->id_tok) & str_eq(p->layer, q->layer) & (p->center == q->center) & det_eq(&p->detail, &q->detail) & NE(dpi) & str_eq(cp_vchar_cstr(&p->file), cp_vchar_cstr(&q->file)); }
    case CP_SCAD_SURFACE: { GET(cp_scad_surface_t); return str_eq(p->file_tok, q->file_tok) & (p->center == q->center); }
    case CP_SCAD_TEXT: { GET(cp_scad_text_t); return str_eq(p->text, q->text) & str_eq(p->font, q->font) & str_eq(p->halign, q->halign) & str_eq(p->valign, q->valign) & str_eq(p->direction, q->direction) & str_eq(p->language, q->language) & str_eq(p->script, q->script) & NE(size) & NE(spacing) & NE(tracking) & (p->detail._fn == q->detail._fn); }
    case CP_SCAD_PROJECTION: { GET(cp_scad_projection_t); return (p->cut == q->cut) & child_eq(&p->child, &q->child); }
    case CP_SCAD_LINEXT: { GET(cp_scad_linext_t); return NE(height) & NE(twist) & NE(scale.x) & NE(scale.y) & (p->slices == q->slices) & (p->center == q->center) & det_eq(&p->detail, &q->detail) & child_eq(&p->child, &q->child); }
    case CP_SCAD_ROTEXT: { GET(cp_scad_rotext_t); return NE(angle) & det_eq(&p->detail, &q->detail) & child_eq(&p->child, &q->child); }
    case CP_SCAD_COLOR: { GET(cp_scad_color_t); return (p->valid == q->valid) & (p->rgba.a == q->rgba.a) & (!p->valid | ((p->rgba.r == q->rgba.r) & (p->rgba.g == q->rgba.g) & (p->rgba.b == q->rgba.b))) & child_eq(&p->child, &q->child); }
    }
    CHECK(0, "unknown kind of object"); return 0;
}
/* ---- */
static bool rd(char const *fn, char *t, int n, cp_syn_tree_t *tr)
{
    t[n] = 0; D("---- %s\n%s\n", fn, t); file_ = calloc(1, sizeof *file_); sx_vfile(fn, t, (size_t)n); bool ok = cp_syn_read(file_, &er, &in_, NULL, fn, NULL) && cp_syn_parse(&er, &in_, tr, file_); if (!ok) D("syn: %s\n", er.msg.data); return ok;
}
static int again(int n0) { if (nu != n0) return 0; int bad = 0; for (int i = 0; i < nu; i++) bad |= U[0][i] != U[1][i]; return !bad; }
void h_dump_syn(void)
{
    sx_opt("fp", 2); static cp_syn_tree_t t2; text(1); if (!rd("f.scad", T, N, &tree_)) { CHECK(0, "scene does not parse"); }
    cp_syn_tree_put_scad(&us_, &tree_); int n0 = nu; memcpy(U[1], U[0], (size_t)nu); CHECK(rd("g.scad", U[1], n0, &t2), "dump does not parse");
    CHECK(tree_.toplevel.size == t2.toplevel.size, "dump has another number of items"); int ok = 1; for (size_t i = 0; i < t2.toplevel.size; i++) { cp_syn_stmt_t *a = tree_.toplevel.data[i], *b = t2.toplevel.data[i]; if (a->type != b->type) ok = 0; else if (a->type == CP_SYN_STMT_USE) ok &= str_eq(cp_syn_cast(cp_syn_stmt_use_t, a)->path, cp_syn_cast(cp_syn_stmt_use_t, b)->path); else ok &= item_eq(cp_syn_cast(cp_syn_stmt_item_t, a), cp_syn_cast(cp_syn_stmt_item_t, b)); }
    CHECK(ok, "dump reads back as another syntax tree"); nu = 0; cp_syn_tree_put_scad(&us_, &t2); CHECK(again(n0), "second dump differs"); sx_reach("syn");
}
void h_dump_scad(void)
{
    sx_opt("fp", 2); static cp_syn_tree_t t2; static cp_scad_tree_t s2; text(0); if (!rd("f.scad", T, N, &tree_)) { CHECK(0, "scene does not parse"); }
    so_.err_unknown_functor = so_.err_unsupported_functor = so_.err_unknown_param = CP_ERR_FAIL; st_.opt = s2.opt = &so_; bool ok = cp_scad_from_syn_tree(&st_, &in_, &er, &tree_); if (!ok) { D("%s\n", er.msg.data); sx_reach("rejected"); return; }
    cp_scad_tree_put_scad(&us_, &st_); int n0 = nu; memcpy(U[1], U[0], (size_t)nu); CHECK(rd("g.scad", U[1], n0, &t2), "dump does not parse"); ok = cp_scad_from_syn_tree(&s2, &in_, &er, &t2); if (!ok) D("%s\n", er.msg.data); CHECK(ok, "dump is not accepted");
    int e = child_eq(&st_.toplevel, &s2.toplevel); CHECK(e, "dump reads back as another scene"); CHECK((st_.root == NULL) == (s2.root == NULL), "dump has another root"); nu = 0; cp_scad_tree_put_scad(&us_, &s2); CHECK(again(n0), "second dump differs"); sx_reach("scad");
}
/* ---- the 3D model: lists its objects ---- */
static int word(char const *w, unsigned mod)
{
    unsigned m = 0; char const *s = rp < ntk && !TK[rp].num ? words + TK[rp].s : ""; for (; *s && strchr("#%*!", *s); s++) m |= *s == '#' ? CP_GC_MOD_HASH : *s == '%' ? CP_GC_MOD_PERCENT : *s == '*' ? CP_GC_MOD_AST : CP_GC_MOD_EXCLAM;
    if (strcmp(s, w)) return 0; if (m != mod) rbad = 1; rp++; return 1;
}
static void note(void) { while (opt_("//")) rp++; }
static int nbad, npoly, nball, nxor;
static void objs(cp_v_obj_p_t *v);
static void grp(cp_v_obj_p_t *v) { note(); if (opt_("union")) { need("("); need(")"); need("{"); objs(v); note(); need("}"); return; } if (v->size != 1) rbad = 1; if (!rbad) objs(v); }
static void row(int n, double const *x) { need("["); for (int i = 0; i < n; i++) { if (i) need(","); nbad |= !num_eq(num(), x[i]); } need("]"); }
static void objs(cp_v_obj_p_t *v)
{
    for (size_t k = 0; k < v->size && !rbad; k++) { cp_csg3_t *o = cp_csg3_cast(cp_csg3_t, v->data[k]); note();
        switch (o->type) {
        case CP_CSG_SUB: { cp_csg_sub_t *r = cp_csg_cast(cp_csg_sub_t, o); need("difference"); need("("); need(")"); need("{"); grp(&r->add->add); objs(&r->sub->add); note(); need("}"); break; }
        case CP_CSG_CUT: { cp_csg_cut_t *r = cp_csg_cast(cp_csg_cut_t, o); need("intersection"); need("("); need(")"); need("{"); for (size_t i = 0; i < r->cut.size; i++) grp(&r->cut.data[i]->add); note(); need("}"); break; }
        case CP_CSG_XOR: { cp_csg_xor_t *r = cp_csg_cast(cp_csg_xor_t, o); need("hob3l_xor"); need("("); need(")"); need("{"); for (size_t i = 0; i < r->xor.size; i++) grp(&r->xor.data[i]->add); note(); need("}"); nxor++; break; }
        case CP_CSG3_SPHERE: { cp_csg3_sphere_t *r = cp_csg3_cast(cp_csg3_sphere_t, o); if (!word("multmatrix", r->gc.modifier)) rbad = 1; need("("); if (opt_("m")) need("="); need("["); for (int i = 0; i < 3; i++) { double x[4] = { r->mat->n.b.m[i][0], r->mat->n.b.m[i][1], r->mat->n.b.m[i][2], r->mat->n.w.v[i] }; row(4, x); need(","); } static double const L_[4] = { 0, 0, 0, 1 }; row(4, L_); need("]"); need(")"); need("sphere"); need("("); need("r"); need("="); nbad |= num() != 1; while (!rbad && !at(")")) rp++; need(")"); need(";"); nball++; break; }
        case CP_CSG3_POLY: { cp_csg3_poly_t *r = cp_csg3_cast(cp_csg3_poly_t, o); if (!word("polyhedron", r->gc.modifier)) rbad = 1; need("("); need("points"); need("="); need("["); for (size_t i = 0; i < r->point.size && !rbad; i++) { if (i) need(","); row(3, r->point.data[i].coord.v); } need("]"); need(","); need("faces"); need("="); need("[");
            for (size_t i = 0; i < r->face.size && !rbad; i++) { if (i) need(","); need("["); cp_csg3_face_t *f = &r->face.data[i]; for (size_t j = 0; j < f->point.size && !rbad; j++) { if (j) need(","); nbad |= num() != (double)(f->point.data[j].ref - r->point.data); } need("]"); } need("]"); need(")"); need(";"); npoly++; break; }
        default: CHECK(0, "unknown kind of object"); } }
}
void h_dump_csg3(void)
{
    sx_opt("fp", 2); sx_opt("maxinstr", 400000000); text(0); if (strstr(T, "import") || strstr(T, "surface") || strstr(T, "projection")) { sx_end(); return; } co.max_fn = 20; if (!scene()) { sx_reach("rejected"); return; }
    cap_reset(); cp_csg3_tree_put_scad(&cap, &t3); read_start(); if (t3.root) objs(&t3.root->add); note(); CHECK(!rbad && rp == ntk, "the dump does not list the objects of the model"); CHECK(!nbad, "the dump has other numbers than the model"); if (npoly) sx_reach("polyhedron"); if (nball) sx_reach("sphere"); if (nxor) sx_reach("xor");
}
