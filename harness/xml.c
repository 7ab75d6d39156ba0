/* C20: XML reader */
#include "common.h"
#include <stdio.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/vec.h>
#include <hob3lbase/pool.h>
#include <hob3l/syn.h>
#include <hob3l/syn_tam.h>
#include <hob3l/xml-parse.h>
#ifdef DBG
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) ((void)0)
#endif
static unsigned char *S; static int N; static bool chomp;
typedef struct { int n; int v[30000]; } out_t;
static out_t A, B;
static void o(out_t *x, int v) { if (x->n < 30000) x->v[x->n++] = v; }
/* ---- reference reader: code points with their offsets, then the grammar ---- */
static int cp[8192], off[8192], M, P;
static bool decode(void)
{
    M = 0;
    for (int i = 0; i < N; ) {
        int b = S[i], n, u; off[M] = i;
        if (b < 0x80) { n = 1; u = b; } else if (b >= 0xc2 && b < 0xe0) { n = 2; u = b & 31; } else if ((b & 0xf0) == 0xe0) { n = 3; u = b & 15; } else if (b >= 0xf0 && b < 0xf5) { n = 4; u = b & 7; } else return false;
        if (i + n > N) return false;
        for (int k = 1; k < n; k++) { if ((S[i + k] & 0xc0) != 0x80) return false; u = u << 6 | (S[i + k] & 63); }
        if ((n == 3 && u < 0x800) || (n == 4 && (u < 0x10000 || u > 0x10ffff)) || (u >= 0xd800 && u < 0xe000) || u == 0) return false;
        cp[M++] = u; i += n;
    }
    off[M] = N; return true;
}
static int c(int i) { return i < M ? cp[i] : 0; }
static bool spc(int x) { return x == ' ' || x == '\t' || x == '\r' || x == '\n' || x == 12 || x == 0x85 || x == 0x2028 || x == 0x2029; }
static void ws(void) { while (spc(c(P))) P++; }
static bool lit(char const *w) { for (; *w; w++, P++) if (c(P) != *w) return false; return true; }
static bool tagc(int x) { return x != 0 && !spc(x) && (x > 0x7f || x < 0x20 || x == 0x7f || (x >= '0' && x <= '9') || (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z') || x == '-' || x == '.' || x == '_'); }
typedef struct { int s, e; } sp_t; /* code point span */
static bool name(sp_t *t) { t->s = P; if (c(P) == '-' || c(P) == '.' || (c(P) >= '0' && c(P) <= '9')) return false; while (tagc(c(P))) P++; t->e = P; return t->e > t->s; }
static bool same(sp_t a, sp_t b) { if (a.e - a.s != b.e - b.s) return false; for (int i = 0; i < a.e - a.s; i++) if (cp[a.s + i] != cp[b.s + i]) return false; return true; }
static bool is(sp_t a, char const *w) { int n = (int)strlen(w); if (a.e - a.s != n) return false; for (int i = 0; i < n; i++) if (cp[a.s + i] != w[i]) return false; return true; }
static bool sname(sp_t *px, sp_t *nm) { px->s = px->e = -1; if (!name(nm)) return false; if (c(P) == ':') { P++; *px = *nm; if (!name(nm)) return false; } return true; }
static void ou(int u)
{
    if (u < 0x80) o(&B, u); else if (u < 0x800) { o(&B, 0xc0 | u >> 6); o(&B, 0x80 | (u & 63)); }
    else if (u < 0x10000) { o(&B, 0xe0 | u >> 12); o(&B, 0x80 | (u >> 6 & 63)); o(&B, 0x80 | (u & 63)); }
    else { o(&B, 0xf0 | u >> 18); o(&B, 0x80 | (u >> 12 & 63)); o(&B, 0x80 | (u >> 6 & 63)); o(&B, 0x80 | (u & 63)); }
}
static void osp(sp_t t) { if (t.s < 0) { o(&B, -1); return; } int m = B.n; o(&B, 0); for (int i = t.s; i < t.e; i++) ou(cp[i]); B.v[m] = B.n - m - 1; }
static int txt[1024], tn;
static bool text(int delim)
{
    tn = 0;
    while (c(P) != delim && c(P) != '<' && c(P) != 0) {
        int u = c(P);
        if (u == '&') {
            P++;
            if (c(P) == '#') {
                P++; int b = 10, v = 0; if (c(P) == 'x' || c(P) == 'X') { b = 16; P++; }
                for (;; P++) { int x = c(P), d = x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : 99; if (d >= b) break; v = v * b + d; if (v > 0x10ffff) return false; }
                if (v == 0 || (v >= 0xd800 && v < 0xe000)) return false;
                u = v;
            }
            else { static char const E[][5] = { "quot", "lt", "gt", "amp", "apos" }; static char const V[] = "\"<>&'"; int k, q = P; for (k = 0; k < 5; k++) { P = q; if (lit(E[k]) && c(P) == ';') break; } if (k == 5) return false; u = V[k]; }
            if (c(P) != ';') return false;
        }
        if (tn < 1024) txt[tn++] = u;
        P++;
    }
    return true;
}
/* one text node of an element (trimmed and dropped if empty when chomping) */
static bool cdata(bool ch_, int *cnt)
{
    int l = off[P]; if (!text('<')) return false;
    int a = 0, b = tn; if (ch_) { while (a < b && spc(txt[a])) a++; while (b > a && spc(txt[b - 1])) b--; if (a == b) return true; l = -3; }
    ++*cnt; o(&B, CP_XML_CDATA); o(&B, l); o(&B, -1); o(&B, -1); int m = B.n; o(&B, 0); for (int i = a; i < b; i++) ou(txt[i]); B.v[m] = B.n - m - 1; o(&B, 0);
    return true;
}
typedef struct ns { struct ns const *up; sp_t px; int *u; int un; } ns_t;
static int pool[8192]; static int pn;
typedef struct { bool deflt; int l; sp_t px, nm; bool val; int *u; int un; } at_t;
static bool ons(sp_t px, ns_t const *ns, int *du, int dun, bool el)
{
    if (px.s < 0) { if (el && du) { o(&B, dun); int m = B.n - 1; for (int i = 0; i < dun; i++) ou(du[i]); B.v[m] = B.n - m - 1; } else o(&B, -1); return true; }
    for (; ns; ns = ns->up) if (same(ns->px, px)) { int m = B.n; o(&B, 0); for (int i = 0; i < ns->un; i++) ou(ns->u[i]); B.v[m] = B.n - m - 1; return true; }
    if (is(px, "xml")) { static char const X[] = "http://www.w3.org/XML/1998/namespace"; o(&B, (int)sizeof X - 1); for (int i = 0; i < (int)sizeof X - 1; i++) o(&B, X[i]); return true; }
    return false;
}
static bool attrs(at_t *a, int *k, ns_t *nsv, int *nk, ns_t const **ns, int **du, int *dun)
{
    for (;;) {
        ws(); int x = c(P); if (x == 0 || x == '/' || x == '>' || x == '?') return true;
        at_t t; memset(&t, 0, sizeof t); t.l = off[P]; if (!sname(&t.px, &t.nm)) return false;
        ws(); if (c(P) == '=') { P++; ws(); int q = c(P); if (q != '"' && q != '\'') return false; P++; if (!text(q)) return false; if (c(P) != q) return false; P++; t.val = true; t.u = pool + pn; t.un = tn; for (int i = 0; i < tn; i++) pool[pn++] = txt[i]; }
        bool xn = t.px.s >= 0 ? is(t.px, "xmlns") : is(t.nm, "xmlns");
        if (xn && !t.val) return false;
        if (xn && t.px.s >= 0) { ns_t *n = &nsv[(*nk)++]; n->up = *ns; n->px = t.nm; n->u = t.u; n->un = t.un; *ns = n; }
        else if (xn) { *du = t.u; *dun = t.un; }
        else a[(*k)++] = t;
    }
}
static bool oattr(at_t const *t, ns_t const *ns, bool res)
{
    o(&B, CP_XML_ATTR); o(&B, t->l); if (res) { if (!ons(t->px, ns, NULL, 0, false)) return false; } else o(&B, -1); osp(t->px); osp(t->nm); o(&B, t->val);
    if (t->val) { o(&B, CP_XML_CDATA); o(&B, -3); o(&B, -1); o(&B, -1); int m = B.n; o(&B, 0); for (int i = 0; i < t->un; i++) ou(t->u[i]); B.v[m] = B.n - m - 1; o(&B, 0); }
    return true;
}
static bool content(ns_t const *ns, int *du, int dun, int *cnt, bool doc);
static bool elem(ns_t const *ns, int *du, int dun)
{
    int l = off[P]; sp_t px, nm; if (!sname(&px, &nm)) return false;
    at_t a[120]; int k = 0, nk = 0; ns_t nsv[120]; if (!attrs(a, &k, nsv, &nk, &ns, &du, &dun)) return false;
    o(&B, CP_XML_ELEM); o(&B, l); if (!ons(px, ns, du, dun, true)) return false;
    osp(px); osp(nm); int m = B.n; o(&B, k); int cnt = k;
    for (int i = 0; i < k; i++) if (!oattr(&a[i], ns, true)) return false;
    if (c(P) == '/') return lit("/>");
    if (!lit(">")) return false;
    if (!content(ns, du, dun, &cnt, false)) return false;
    B.v[m] = cnt; P += 2; sp_t e; /* at </ */
    if (px.s >= 0) { for (int i = px.s; i < px.e; i++) if (c(P++) != cp[i]) return false; if (c(P++) != ':') return false; }
    e.s = P; for (int i = nm.s; i < nm.e; i++) if (c(P++) != cp[i]) return false;
    ws(); return lit(">");
}
/* stops in front of an end tag; the end of the file is only fine for the document */
static bool content(ns_t const *ns, int *du, int dun, int *cnt, bool doc)
{
    for (;;) {
        if (c(P) == 0) return doc;
        if (c(P) != '<') { if (!cdata(chomp || doc, cnt)) return false; continue; }
        if (c(P + 1) == '/') return !doc;
        P++;
        if (c(P) == '!') { if (!lit("!--")) return false; while (!(c(P) == '-' && c(P + 1) == '-')) { if (c(P) == 0) return false; P++; } if (!lit("-->")) return false; continue; }
        ++*cnt; if (!elem(ns, du, dun)) return false;
    }
}
static bool rdoc(void)
{
    if (!decode()) return false;
    P = 0; pn = 0; if (c(P) == 0xfeff) P++;
    at_t a[120]; int k = 0, nk = 0; ns_t nsv[120]; ns_t const *ns = NULL; int *du = NULL, dun = 0; int m = B.n; o(&B, 0);
    if (c(P) == '<' && c(P + 1) == '?') { P += 2; sp_t t; if (!name(&t) || !is(t, "xml")) return false; if (!attrs(a, &k, nsv, &nk, &ns, &du, &dun)) return false; if (!lit("?>")) return false; }
    ws();
    int q = P; if (lit("<!DOCTYPE")) { while (c(P) != '>') { if (c(P) == 0) return false; P++; } P++; ws(); } else P = q;
    for (int i = 0; i < k; i++) if (!oattr(&a[i], ns, false)) return false;
    int cnt = 0, at = B.n; if (!content(ns, du, dun, &cnt, true)) return false;
    if (cnt != 1 || B.v[at] != CP_XML_ELEM) return false;
    B.v[m] = k + 1; return true;
}
/* ---- the tree that was built ---- */
static char *F;
static void ostr(char const *s) { if (s == NULL) { o(&A, -1); return; } int m = A.n; o(&A, 0); int n = 0; for (; s[n]; n++) o(&A, (unsigned char)s[n]); A.v[m] = n; }
static int kids(cp_xml_t *x) { int n = 0; for (x = x->child; x; x = x->next) n++; return n; }
static void walk(cp_xml_t *x, cp_xml_t *up)
{
    for (; x; x = x->next) {
        bool nl = x->type == CP_XML_CDATA && (chomp || up->type != CP_XML_ELEM);
        o(&A, x->type); o(&A, nl ? -3 : x->loc == NULL ? -2 : (int)(x->loc - F)); ostr(x->ns); ostr(x->ns_prefix); ostr(x->data); o(&A, kids(x)); walk(x->child, x);
    }
}
static cp_syn_input_t in; static cp_err_t er; static cp_syn_file_t *file; static cp_pool_t tmp;
static bool run(void)
{
    memset(&in, 0, sizeof in); memset(&er, 0, sizeof er); file = calloc(1, sizeof *file); cp_pool_init(&tmp);
    sx_vfile("f.xml", S, N); CHECK(cp_syn_read(file, &er, &in, NULL, "f.xml", NULL), "reading failed"); F = file->content.data;
    A.n = B.n = 0; bool rok = rdoc();
    cp_xml_t *x = NULL; bool ok = cp_xml_parse(&x, &tmp, &er, file, chomp ? CP_XML_OPT_CHOMP : 0);
    D("ok %d ref %d '%.*s' %s\n", ok, rok, N, S, er.msg.size ? er.msg.data : "");
    CHECK(ok == rok, rok ? "well-formed document rejected" : "malformed document accepted");
    if (!ok) { CHECK(er.msg.size > 0, "error without a message"); CHECK(er.loc != NULL && er.loc >= F && er.loc <= F + N, "error location outside the file"); sx_reach("error"); return false; }
    CHECK(er.msg.size == 0, "message without an error"); CHECK(x && x->type == CP_XML_DOC && x->next == NULL, "no document node");
    o(&A, kids(x)); walk(x->child, x);
    for (int i = 0; i < A.n || i < B.n; i++) if (i >= A.n || i >= B.n || A.v[i] != B.v[i]) { D("%d: %d %d\n", i, A.v[i], B.v[i]); }
    CHECK(A.n == B.n, "tree has a wrong structure"); unsigned bad = 0; for (int i = 0; i < A.n; i++) bad |= (unsigned)(A.v[i] ^ B.v[i]);
    CHECK(bad == 0, "tree differs from the document"); sx_reach(chomp ? "tree chomped" : "tree"); return true;
}
static char const *const TM[][2] = {
    { "", "" }, { "<", "/>" }, { "<a ", "/>" }, { "<a b='", "'/>" }, { "<a>", "</a>" }, { "<a>&", ";</a>" }, { "<a>&#", "5;</a>" }, { "<a>&#x", "1;</a>" }, { "<a><!--", "--></a>" }, { "<a></a", ">" }, { "<x:", " xmlns:x=''/>" },
    { "<a xmlns:", "='u'><y:b/></a>" }, { "<?xml ", "?><a/>" }, { "<!DOCTYPE", "<a/>" }, { "<a/>", "" }, { "<a>\xc2", "</a>" }, { "<a>\xe2\x80", "x</a>" }, { "<a xmlns", "'u'><b/></a>" }, { "<", "></a>" }, { "<p:a xmlns:p='1'></", "a>" }, { "<a>&#11141", ";</a>" }, { "<a b", "'x'/>" }, { "<?", "?><a/>" }, { "<a><b>", "</a>" } };
#define NT ((int)(sizeof TM / sizeof *TM))
void h_xml(void)
{
    int t = ch("context", (int)sx_param("t0", 0), (int)sx_param("t1", NT - 1)), n = ch("n", 0, (int)sx_param("n", 2)), a = (int)strlen(TM[t][0]), b = (int)strlen(TM[t][1]); N = a + n + b; S = malloc(N + 1); chomp = ch("chomp", 0, 1);
    memcpy(S, TM[t][0], a); for (int i = 0; i < n; i++) S[a + i] = sx_byte("byte"); memcpy(S + a + n, TM[t][1], b); run();
}
static char const TEXT[] = "\xef\xbb\xbf<?xml v=\"1\"?> <!DOCTYPE x>\n<a xmlns=\"u\" xmlns:p='v' p:c=\"1&lt;&#x41;\"><!-- c --><p:b d xml:e = '\"'/> t&amp;&#65; <q:f xmlns:q=\"w\">\xc3\xa9<!----></q:f ><b\n></b></a>\n";
void h_mutate(void)
{
    int n = (int)sizeof TEXT - 1, how = ch("how", 0, 3), p = ch("at", 0, n - 1); S = malloc(n + 2); memcpy(S, TEXT, n); N = n; chomp = ch("chomp", 0, 1);
    if (how == 0) { S[p] = sx_byte("byte"); int d = ch("then", 0, (int)sx_param("then", 1)); if (d && p + d < N) S[p + d] = sx_byte("byte"); }
    else if (how == 1) { memmove(S + p + 1, S + p, n - p); S[p] = sx_byte("byte"); N++; }
    else if (how == 2) { memmove(S + p, S + p + 1, n - p - 1); N--; }
    else N = p;
    run();
}
/* names: element, attribute, and end tag names of any bytes */
void h_names(void)
{
    int n = ch("n", 1, (int)sx_param("n", 3)), m = ch("m", 1, n); unsigned char w[8], v[8]; chomp = false; for (int i = 0; i < n; i++) w[i] = sx_byte("byte"); bool eq = ch("same", 0, 1); if (eq && m < n) sx_end(); for (int i = 0; i < m; i++) v[i] = eq ? w[i] : sx_byte("end");
    S = malloc(64); N = 0; S[N++] = '<'; for (int i = 0; i < n; i++) S[N++] = w[i]; S[N++] = '>'; S[N++] = '<'; S[N++] = '/'; for (int i = 0; i < m; i++) S[N++] = v[i]; S[N++] = '>'; run();
}
/* searching, setting name spaces, skipping attributes */
void h_tree(void)
{
    static char const *const nsv[3] = { NULL, "u", "w" }; char u2[2] = "u"; cp_xml_t x[5]; memset(x, 0, sizeof x); char const *dt[5]; static char const *const dv[3] = { NULL, "a", "b" };
    int n = ch("nodes", 1, (int)sx_param("nodes", 4)), at = ch("attributes", 0, n), dp = ch("deep", 0, 1);
    for (int i = 0; i < n; i++) { x[i].type = i < at ? CP_XML_ATTR : ch("type", 0, 1) ? CP_XML_ELEM : CP_XML_CDATA; int k = ch("ns", 0, 3); x[i].ns = k == 3 ? u2 : nsv[k]; dt[i] = dv[ch("data", 0, 1)]; x[i].data = (char*)dt[i]; if (i + 1 < n && !(dp && i == n - 2)) x[i].next = &x[i + 1]; if (dp && n > 1 && i == n - 2) x[i].child = &x[i + 1]; }
    cp_xml_t *f = cp_xml_skip_attr(x), *w = x; while (w && w->type == CP_XML_ATTR) w = w->next; CHECK(f == w, "wrong node after the attributes");
    int op = ch("operation", 0, 1);
    if (op == 0) {
        int t = ch("find type", 0, 3), d = ch("find data", 0, 2), k = ch("find ns", 0, 3); char const *da = d == 2 ? CP_XML_ANY : d == 1 ? "a" : NULL, *na = k == 3 ? CP_XML_ANY : nsv[k]; cp_xml_type_t ty = t == 0 ? 0 : t == 1 ? CP_XML_ATTR : t == 2 ? CP_XML_ELEM : CP_XML_CDATA;
        cp_xml_t *r = cp_xml_find(x, ty, da, na), *e = NULL;
        for (w = x; w; w = w->next) if ((!t || w->type == ty) && (d == 2 || (d == 1) == (w->data != NULL)) && (k == 3 || w->ns == na)) { e = w; break; }
        CHECK(r == e, "wrong node found"); sx_reach("found");
    } else {
        static char const nn[] = "w"; int k = ch("old ns", 0, 2); cp_xml_t y[5]; memcpy(y, x, sizeof y); char const *old = k == 2 ? u2 : nsv[k];
        cp_xml_set_ns(x, old, nn);
        for (int i = 0; i < n; i++) { bool set = y[i].ns == NULL ? y[i].type == CP_XML_ELEM && old == NULL : y[i].ns == old || strcmp(y[i].ns, nn) == 0; CHECK(x[i].ns == (set ? nn : y[i].ns), "wrong name space set"); CHECK(x[i].type == y[i].type && x[i].data == y[i].data && x[i].next == y[i].next && x[i].child == y[i].child, "tree was changed"); }
        sx_reach("set");
    }
}

/* large documents: many attributes, name spaces, levels, siblings, and long names and texts */
static void w(char const *fmt, int i) { N += sprintf((char*)S + N, fmt, i); }
void h_many(void)
{
    static int const SZ[] = { 6, 9, 17, 33, 40, 72, 110 }; int nz = (int)sx_param("sizes", 7);
    int k = ch("shape", 0, 6), n = SZ[ch("size", 0, nz - 1)], at = ch("at", 0, 2) * (n - 1) / 2; chomp = ch("chomp", 0, 1); S = malloc(8192); N = 0; int hole = -1;
    if (k == 0) { w("<a", 0); for (int i = 0; i < n; i++) { w(" b%d='", i); if (i == at) { hole = N; w("x", 0); } w("%d'", i * 7); } w("><c d=''/></a>", 0); }
    if (k == 1) { for (int i = 0; i < n; i++) { w("<a%d ", i); w("b='", 0); w("%d'>", i); if (i == at) { hole = N; w("t", 0); } } for (int i = n; i-- > 0; ) w("<z/></a%d>", i); }
    if (k == 2) { for (int i = 0; i < n; i++) { w("<p%d:a ", i); w("xmlns:p%d=", i); w("'u%d'>", i); } w("<p%d", at); hole = N; w(":b/>", 0); for (int i = n; i-- > 0; ) w("</p%d:a>", i); }
    if (k == 3) { w("<r>", 0); for (int i = 0; i < n; i++) { if (i % 3 == 0) w("<a%d/>", i); else if (i % 3 == 1) w(" text%d ", i); else w("<!--%d--><b></b>", i); if (i == at) { hole = N; w("q", 0); } } w("</r>", 0); }
    if (k == 4) { w("<a>", 0); for (int i = 0; i < n; i++) { w(" &lt;%d\n", i); if (i == at) { hole = N; w("q", 0); } } w("</a>", 0); }
    if (k == 5) { for (int j = 0; j < 2; j++) { w(j ? "/>" : "<", 0); if (j) break; for (int i = 0; i < n; i++) w("n%d", i % 10); w(" xmlns='", 0); for (int i = 0; i < n; i++) { if (i == at) { hole = N; w("q", 0); } w("u%d", i % 10); } w("'", 0); } }
    if (k == 6) { w("<a", 0); for (int i = 0; i < n; i++) { w(" xmlns:p%d=", i); w("'u%d'", i); } w("><p%d", at); hole = N; w(":b p0:c='1'/></a>", 0); }
    if (ch("any byte", 0, 1)) S[hole] = sx_byte("byte");
    run();
}
