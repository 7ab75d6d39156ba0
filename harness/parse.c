/* C17: SCAD lexer and parser, source locations */
#include "common.h"
#include <stdio.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/vec.h>
#include <hob3l/syn.h>
#include <hob3l/syn-msg.h>
#include <hob3l/gc_tam.h>
#ifdef DBG
#define D(...) fprintf(stderr, __VA_ARGS__)
#else
#define D(...) ((void)0)
#endif
/* ---- canonical form: opcodes, offsets and token bytes ---- */
typedef struct { int n; int v[30000]; } out_t;
static out_t A, B; static bool noL;
static void o(out_t *x, int v) { if (x->n < 30000) x->v[x->n++] = v; }
static void od(out_t *x, double d) { int64_t v; memcpy(&v, &d, 8); o(x, (int)v); o(x, (int)(v >> 32)); }
static void oi(out_t *x, long long d) { o(x, (int)d); o(x, (int)(d >> 32)); }
/* ---- reference: grammar of doc/scadformat.md on the immutable bytes ---- */
static unsigned char *S; static int N, P; /* text, length, position */
enum { EOFT = 0, ERR = 1000, ID, INT, FLT, STR };
static int tt, ts, tl, tloc; /* type, start, length, location */
static int glue;             /* a number or an identifier ended right here */
static int c(int i) { return i < N ? S[i] : -1; }
static bool dig(int x) { return x >= '0' && x <= '9'; }
static bool alp(int x) { return (x >= 'a' && x <= 'z') || (x >= 'A' && x <= 'Z'); }
static void next(void)
{
    if (tt == ERR) return;
    for (;;) {
        while (c(P) == ' ' || c(P) == '\t' || c(P) == '\r' || c(P) == '\n') P++;
        if (c(P) != '/') break;
        if (c(P + 1) == '/') { while (c(P) != -1 && c(P) != '\n') { if (c(P) == 0) { tt = ERR; return; } P++; } }
        else if (c(P + 1) == '*') {
            P += 2; while (!(c(P) == '*' && c(P + 1) == '/')) { if (c(P) <= 0) { tt = ERR; return; } P++; }
            P += 2;
        }
        else break;
    }
    int x = c(P); tloc = ts = P;
    bool num = x == '+' || x == '-' || x == '.' || dig(x), id = x == '$' || x == '_' || alp(x);
    if ((num || id) && glue == P) { tt = ERR; return; }
    if (x == -1) { tt = EOFT; return; }
    if (num) {
        tt = INT; if (x == '+' || x == '-') { P++; if (x == '+') ts = P; }
        while (dig(c(P))) P++;
        if (c(P) == '.') { tt = FLT; P++; while (dig(c(P))) P++; }
        if (c(P) == 'e' || c(P) == 'E') { tt = FLT; P++; if (c(P) == '+' || c(P) == '-') P++; while (dig(c(P))) P++; }
        tl = P - ts; glue = P; return;
    }
    if (id) { tt = ID; P++; while (alp(c(P)) || dig(c(P)) || c(P) == '_') P++; tl = P - ts; glue = P; return; }
    if (x == '"') {
        ts = ++P; tt = STR;
        while (c(P) != '"') { if (c(P) == '\\') { P++; if (c(P) >= 128) { tt = ERR; return; } } if (c(P) <= 0) { tt = ERR; return; } P++; }
        tl = P - ts; P++; return;
    }
    if (x >= 128 || x == 0) { tt = ERR; return; }
    tt = x; P++;
}
static void otok(void) { o(&B, tl); for (int i = 0; i < tl; i++) o(&B, S[ts + i]); }
static bool eq(char const *w) { int n = (int)strlen(w); if (tt != ID || tl != n) return false; for (int i = 0; i < n; i++) if (S[ts + i] != (unsigned char)w[i]) return false; return true; }
static bool is_val(void) { return tt == ID || tt == INT || tt == FLT || tt == STR || tt == '['; }
static bool rvalue(void)
{
    char buf[64];
    if (tt == INT || tt == FLT) { int i; for (i = 0; i < tl && i < 63; i++) buf[i] = (char)S[ts + i]; buf[i] = 0; }
    switch (tt) {
    case INT: o(&B, 'i'); o(&B, noL ? 0 : tloc); oi(&B, strtoll(buf, 0, 10)); next(); return true;
    case FLT: o(&B, 'f'); o(&B, noL ? 0 : tloc); od(&B, strtod(buf, 0)); next(); return true;
    case ID: o(&B, 'I'); o(&B, noL ? 0 : tloc); otok(); next(); return true;
    case STR: o(&B, 's'); o(&B, noL ? 0 : tloc); otok(); next(); return true;
    case '[': {
        int m = B.n; o(&B, 'a'); o(&B, noL ? 0 : tloc); o(&B, 0); int k = 0; next();
        if (tt == ']') { next(); return true; }
        if (!rvalue()) return false;
        k++;
        if (tt == ':') {
            B.v[m] = 'r'; next(); if (!rvalue()) return false;
            k++;
            if (tt == ':') { next(); if (!rvalue()) return false; k++; }
        }
        else while (tt == ',') { next(); if (!is_val()) break; if (!rvalue()) return false; k++; }
        if (tt != ']') return false;
        B.v[m + 2] = k; next(); return true; }
    }
    return false;
}
static bool ritem(int *cnt);
static bool rlist(int *cnt, bool top)
{
    for (;;) {
        if (tt == ID && (eq("module") || eq("function") || eq("include"))) return true; /* include: not in the templates */
        if (tt == ID && eq("use")) {
            if (!top) return true;
            o(&B, 'u'); o(&B, noL ? 0 : tloc); while (c(P) == ' ' || c(P) == '\t' || c(P) == '\r' || c(P) == '\n') P++;
            next(); if (tt != '<') return false;
            ts = P; while (c(P) != '>') { if (c(P) <= 0) { tt = ERR; return false; } P++; }
            tl = P - ts; P++; otok(); ++*cnt; next(); continue;
        }
        if (!(tt == ID || tt == ';' || tt == '{' || tt == '!' || tt == '*' || tt == '%' || tt == '#')) return true;
        if (!ritem(cnt)) return false;
    }
}
static bool ritem(int *cnt)
{
    if (tt == ';') { next(); return true; }
    ++*cnt; int m; o(&B, 'S'); int body = 0;
    if (tt == '{') { o(&B, noL ? 0 : tloc); o(&B, '{'); o(&B, 0); o(&B, 0); m = B.n; o(&B, 0); }
    else {
        int mod = 0; bool any = false;
        if (tt == ID && (eq("use") || eq("include") || eq("module") || eq("function"))) return false;
        for (;; any = true) { if (tt == '!') mod |= CP_GC_MOD_EXCLAM; else if (tt == '*') mod |= CP_GC_MOD_AST; else if (tt == '%') mod |= CP_GC_MOD_PERCENT; else if (tt == '#') mod |= CP_GC_MOD_HASH; else break; next(); }
        (void)any; if (tt != ID) return false;
        o(&B, noL ? 0 : tloc); otok(); o(&B, mod); next(); if (tt != '(') return false;
        next(); int am = B.n, args = 0; o(&B, 0);
        while (is_val()) {
            args++;
            if (tt == ID) { int l = noL ? 0 : tloc, s = ts, n = tl; next(); if (tt == '=') { next(); o(&B, 'k'); o(&B, n); for (int i = 0; i < n; i++) o(&B, S[s + i]); if (!rvalue()) return false; } else { o(&B, 'I'); o(&B, l); o(&B, n); for (int i = 0; i < n; i++) o(&B, S[s + i]); } }
            else if (!rvalue()) return false;
            if (tt == ')') break;
            if (tt != ',') return false;
            next();
        }
        if (tt != ')') return false;
        B.v[am] = args; next(); m = B.n; o(&B, 0);
    }
    if (tt == '{') { next(); if (!rlist(&body, false)) return false; if (tt != '}') return false; next(); }
    else if (!ritem(&body)) return false;
    B.v[m] = body; return true;
}
/* ---- walk over the tree the parser built ---- */
static char *F;
static void wstr(char const *s) { int m = A.n; o(&A, 0); int n = 0; for (; s[n]; n++) o(&A, (unsigned char)s[n]); A.v[m] = n; }
static int off(char const *l) { return noL ? 0 : l == NULL ? -2 : (int)(l - F); }
static void wval(cp_syn_value_t *v)
{
    switch (v->type) {
    case CP_SYN_VALUE_INT: o(&A, 'i'); o(&A, off(v->loc)); oi(&A, cp_syn_cast(cp_syn_value_int_t, v)->value); return;
    case CP_SYN_VALUE_FLOAT: o(&A, 'f'); o(&A, off(v->loc)); od(&A, cp_syn_cast(cp_syn_value_float_t, v)->value); return;
    case CP_SYN_VALUE_ID: o(&A, 'I'); o(&A, off(v->loc)); wstr(cp_syn_cast(cp_syn_value_id_t, v)->value); return;
    case CP_SYN_VALUE_STRING: o(&A, 's'); o(&A, off(v->loc)); wstr(cp_syn_cast(cp_syn_value_string_t, v)->value); return;
    case CP_SYN_VALUE_RANGE: { cp_syn_value_range_t *r = cp_syn_cast(*r, v); o(&A, 'r'); o(&A, off(v->loc)); o(&A, r->inc ? 3 : 2); wval(r->start); if (r->inc) wval(r->inc); wval(r->end); return; }
    case CP_SYN_VALUE_ARRAY: { cp_syn_value_array_t *r = cp_syn_cast(*r, v); o(&A, 'a'); o(&A, off(v->loc)); o(&A, (int)r->value.size); for (size_t i = 0; i < r->value.size; i++) wval(r->value.data[i]); return; }
    default: CHECK(0, "value of an unknown kind");
    }
}
static void wstmt(cp_syn_stmt_t *s)
{
    if (s->type == CP_SYN_STMT_USE) { o(&A, 'u'); o(&A, off(s->loc)); wstr(cp_syn_cast(cp_syn_stmt_use_t, s)->path); return; }
    cp_syn_stmt_item_t *t = cp_syn_cast(*t, s); o(&A, 'S'); o(&A, off(s->loc));
    bool blk = noL ? t->functor[0] == '{' : off(s->loc) >= 0 && off(s->loc) < N && S[off(s->loc)] == '{';
    if (blk) { CHECK(t->functor[0] == '{' && t->functor[1] == 0, "block has a wrong functor"); o(&A, '{'); } else wstr(t->functor);
    o(&A, (int)t->modifier); o(&A, (int)t->arg.size);
    for (size_t i = 0; i < t->arg.size; i++) { cp_syn_arg_t *a = t->arg.data[i]; if (a->key) { o(&A, 'k'); wstr(a->key); } wval(a->value); }
    o(&A, (int)t->body.size); for (size_t i = 0; i < t->body.size; i++) wstmt((cp_syn_stmt_t*)t->body.data[i]);
}
static cp_syn_input_t in; static cp_syn_tree_t tree; static cp_err_t er; static cp_syn_file_t *file;
static bool load(unsigned char *s, int n)
{
    memset(&in, 0, sizeof in); memset(&tree, 0, sizeof tree); memset(&er, 0, sizeof er); file = calloc(1, sizeof *file);
    sx_vfile("f.scad", s, n);
    return cp_syn_read(file, &er, &in, NULL, "f.scad", NULL);
}
/* the location of every position, against a plain count of newlines */
static void chk_loc(char const *p)
{
    cp_syn_loc_t l; bool ok = cp_syn_get_loc(&l, &in, p); CHECK(ok && l.file == file, "location not found in its file");
    int k = (int)(p - file->content.data), line = 0, st = 0, en = N;
    for (int i = 0; i < k; i++) if (S[i] == '\n') { line++; st = i + 1; }
    for (int i = N; i-- > k;) if (S[i] == '\n') en = i + 1;
    if (k == N && N > 0 && S[N - 1] != '\n' && (int)l.line == line + 1) { line++; st = N; } /* the end of the file may count as an empty line of its own */
    CHECK((int)l.line == line, "wrong line number");
    CHECK(l.copy - file->content.data == st && l.orig - file->content_orig.data == st, "wrong start of line");
    CHECK(l.copy_end - file->content.data == en && l.orig_end - file->content_orig.data == en, "wrong end of line");
}
static char const *const TM[][2] = {
    { "", "" }, { "a(", ");" }, { "a([", "]);" }, { "a(1", ");" }, { "a(\"", "\");" }, { "a(b", ");" }, { "a();/", "b();" },
    { "use <", ">;" }, { "{", "}" }, { "a(b=", ",2);" }, { "!a()", "\n" }, { "a([1:", "]);" }, { "a()/*", "*/;" }, { "a(2.5", ",3){b();}" }, { "a();//", "\nb();" }, { "us", " <x>a();" }, { "a() b", "();" }, { "a(", "=1);" }, { "a(\"x\\", "\",2);" }, { "$", "();" } };
static void run(void)
{
    CHECK(load(S, N), "reading failed"); F = file->content.data;
    CHECK((int)file->content.size == N && (int)file->content_orig.size == N, "content has a wrong size");
    bool ok = cp_syn_parse(&er, &in, &tree, file);
    A.n = B.n = 0; P = 0; tt = 1; glue = -1; next(); int cnt = 0; int cm = B.n; o(&B, 0); bool rok = rlist(&cnt, true) && tt == EOFT; B.v[cm] = cnt;
    D("ok %d ref %d '%.*s' %s\n", ok, rok, N, S, er.msg.size ? er.msg.data : "");
    CHECK(ok == rok, rok ? "text of the language rejected" : "text outside the language accepted");
    for (int i = 0; i < N; i++) CHECK((unsigned char)file->content_orig.data[i] == S[i], "the original text was modified");
    if (!ok) {
        CHECK(er.msg.size > 0, "error without a message");
        CHECK(er.loc != NULL && er.loc >= F && er.loc <= F + N, "error location outside the file");
        chk_loc(er.loc); cp_vchar_t pre, post; cp_syn_format_loc(&pre, &post, &in, er.loc, er.loc2); CHECK(pre.size > 0, "error without a position");
        sx_reach("error"); return;
    }
    CHECK(er.msg.size == 0, "message without an error");
    o(&A, (int)tree.toplevel.size); for (size_t i = 0; i < tree.toplevel.size; i++) wstmt(tree.toplevel.data[i]);
    CHECK(A.n == B.n, "syntax tree has a wrong structure");
    unsigned bad = 0; for (int i = 0; i < A.n; i++) bad |= (unsigned)(A.v[i] ^ B.v[i]);
    CHECK(bad == 0, "syntax tree differs from the text");
    sx_reach(A.n > 1 ? "tree" : "nothing");
}
void h_parse(void)
{
    int t = ch("context", (int)sx_param("t0", 0), (int)sx_param("t1", 19)), n = ch("n", 0, (int)sx_param(t == 0 ? "n0" : "n", t == 0 ? 3 : 2));
    int a = (int)strlen(TM[t][0]), b = (int)strlen(TM[t][1]); N = a + n + b; S = malloc(N + 1);
    memcpy(S, TM[t][0], a); for (int i = 0; i < n; i++) S[a + i] = sx_byte("byte"); memcpy(S + a + n, TM[t][1], b);
    run();
}
/* line and column of every position of a text */
void h_loc(void)
{
    N = ch("n", 0, (int)sx_param("n", 5)); S = malloc(N + 1); for (int i = 0; i < N; i++) S[i] = sx_byte("byte");
    CHECK(load(S, N), "reading failed");
    int k = ch("position", 0, N); char const *p = file->content.data + k; chk_loc(p);
    cp_vchar_t pre, post; cp_syn_format_loc(&pre, &post, &in, p, NULL);
    int line = 1, st = 0, en = N; for (int i = 0; i < k; i++) if (S[i] == '\n') { line++; st = i + 1; }
    for (int i = N; i-- > k;) if (S[i] == '\n') en = i + 1;
    if (k == N && N > 0 && S[N - 1] != '\n') { sx_reach("end of file"); return; }
    /* column: tab stops every 4, cut at the first unprintable character */
    int x = 0, col = -1; char ln[64]; int m = 0; bool cut = false;
    ln[m++] = ' ';
    for (int i = st; i < en && !cut; i++) {
        if (i == k) col = x;
        int b = S[i];
        if (b == '\t') { do { ln[m++] = ' '; x++; } while (x % 4); }
        else if (b != '\n' && b != '\r' && (b < 32 || b > 126)) { cut = true; if (m > 1) { memcpy(ln + m, "[...binary...]", 14); m += 14; } }
        else { ln[m++] = (char)b; x++; }
    }
    char want[64]; int w = snprintf(want, sizeof want, col >= 0 ? "f.scad:%d:%d: " : "f.scad:%d: ", line, col + 1);
    D("pre '%s' post '%s' want '%s'\n", pre.data, post.data, want);
    CHECK((int)pre.size == w && memcmp(pre.data, want, w) == 0, "message prefix has a wrong position");
    if (m > 1) { unsigned bad = 0; CHECK((int)post.size >= m, "source line is missing"); for (int i = 0; i < m; i++) bad |= (unsigned char)(post.data[i] ^ ln[i]); CHECK(bad == 0, "source line is wrong"); sx_reach("line"); }
    if (col >= 0 && m > 1) { size_t q = post.size; CHECK(q >= 2 && post.data[q - 1] == '\n' && post.data[q - 2] == '^', "no column pointer"); int sp = 0; for (size_t i = q - 2; i-- > 0 && post.data[i] == ' ';) sp++; CHECK(sp == col + 1 || (m == 1), "column pointer is misplaced"); sx_reach("column"); }
}
/* numbers keep their value, whatever surrounds them */
void h_number(void)
{
    int n = ch("digits", 1, (int)sx_param("n", 18)), sg = ch("sign", 0, 2); long long want = 0; char buf[40]; int m = 0;
    memcpy(buf, "a(", 2); m = 2; if (sg) buf[m++] = sg == 1 ? '-' : '+';
    for (int i = 0; i < n; i++) { int d = (int)sx_int("digit", 0, 9); buf[m++] = (char)('0' + d); want = want * 10 + d; }
    memcpy(buf + m, ");", 2); m += 2; if (sg == 1) want = -want;
    S = (unsigned char*)buf; N = m; CHECK(load(S, N), "reading failed");
    CHECK(cp_syn_parse(&er, &in, &tree, file), "number rejected");
    cp_syn_stmt_item_t *t = cp_syn_cast(*t, tree.toplevel.data[0]); CHECK(t->arg.size == 1 && t->arg.data[0]->value->type == CP_SYN_VALUE_INT, "not an integer");
    CHECK(cp_syn_cast(cp_syn_value_int_t, t->arg.data[0]->value)->value == want, "integer has a wrong value"); sx_reach("number");
}

/* a text using the whole syntax, with bytes at 1..2 positions replaced by anything, or one byte inserted or removed */
static char const TEXT[] = "a(b=[1,-2.5e1,\"s\\\"x\"],$f=[0:2:9],t){!c();/*d*/#e(x,){}}//z\n use <p/q>%g([],[[_]])h();{;}";
void h_mutate(void)
{
    int n = (int)sizeof TEXT - 1, how = ch("how", 0, 2), p = ch("at", 0, n - 1); S = malloc(n + 2); memcpy(S, TEXT, n); N = n;
    if (how == 0) { S[p] = sx_byte("byte"); int d = ch("then", 0, (int)sx_param("then", 2)); if (d && p + d < N) S[p + d] = sx_byte("byte"); }
    else if (how == 1) { memmove(S + p + 1, S + p, n - p); S[p] = sx_byte("byte"); N++; }
    else { memmove(S + p, S + p + 1, n - p - 1); N--; }
    run();
}
/* included files: read relative to the including file, inlined in place, errors located in the right file */
static bool ref(char const *t, int n) { S = (unsigned char*)t; N = n; B.n = 0; P = 0; tt = 1; glue = -1; next(); int k = 0; o(&B, 0); bool ok = rlist(&k, false) && tt == EOFT; B.v[0] = k; return ok; }
void h_include(void)
{
    noL = true; unsigned char s0 = sx_byte("byte"), s1 = sx_byte("byte"); int where = ch("where", 0, 2), top = ch("top", 0, 1);
    char h[32], g[64], f[64], all[128], gg[32]; int hn, gn, fn;
    hn = where == 0 ? (memcpy(h, "e(  );", 6), h[2] = (char)s0, h[3] = (char)s1, 6) : (memcpy(h, "e();\n", 5), 5);
    gn = where == 1 ? (memcpy(g, "\ninclude <h>  c(1);", 19), g[12] = (char)s0, g[13] = (char)s1, 19) : (memcpy(g, "\ninclude <h>c(1);", 17), 17);
    memcpy(f, top ? "    include <d/g>" : "x(){include <d/g>", 17); fn = 17; if (where == 2) { f[fn++] = (char)s0; f[fn++] = (char)s1; } memcpy(f + fn, top ? "y();" : "}y()z();", top ? 4 : 8); fn += top ? 4 : 8;
    memset(&in, 0, sizeof in); memset(&tree, 0, sizeof tree); memset(&er, 0, sizeof er); file = calloc(1, sizeof *file);
    bool dir = ch("absolute", 0, 1);
    sx_vfile(dir ? "/p/f" : "f", f, fn); sx_vfile(dir ? "/p/d/g" : "d/g", g, gn); sx_vfile(dir ? "/p/d/h" : "d/h", h, hn);
    CHECK(cp_syn_read(file, &er, &in, NULL, dir ? "/p/f" : "f", NULL), "reading failed");
    bool ok = cp_syn_parse(&er, &in, &tree, file);
    /* reference */
    int m = gn - 12; memcpy(gg, g + 12, m);
    bool rh = ref(h, hn), rg = rh && ref(gg, m); int fp = top ? 4 : 4; char ff[64]; memcpy(ff, f, fp); memcpy(ff + fp, f + 17, fn - 17);
    bool rf = rg && ref(ff, fn - 13);
    D("ok %d ref %d %d %d msg %s\n", ok, rh, rg, rf, er.msg.size ? er.msg.data : "");
    CHECK(ok == rf, rf ? "include rejected" : "bad include accepted");
    if (!ok) {
        char const *want = !rh ? (dir ? "/p/d/h" : "d/h") : !rg ? (dir ? "/p/d/g" : "d/g") : (dir ? "/p/f" : "f"); cp_syn_loc_t l;
        CHECK(er.loc != NULL && cp_syn_get_loc(&l, &in, er.loc), "error without a location");
        CHECK(strcmp(cp_vchar_cstr(&l.file->filename), want) == 0, "error located in another file"); sx_reach("error"); return;
    }
    int n = 0; memcpy(all, f, 4); n = 4; memcpy(all + n, h, hn); n += hn; memcpy(all + n, gg, m); n += m; all[n++] = '\n'; memcpy(all + n, f + 17, fn - 17); n += fn - 17;
    CHECK(ref(all, n), "inlined text is wrong");
    A.n = 0; o(&A, (int)tree.toplevel.size); for (size_t i = 0; i < tree.toplevel.size; i++) wstmt(tree.toplevel.data[i]);
    CHECK(in.file.size == 3, "wrong number of input files"); CHECK(A.n == B.n, "include changes the structure");
    unsigned bad = 0; for (int i = 0; i < A.n; i++) bad |= (unsigned)(A.v[i] ^ B.v[i]);
    CHECK(bad == 0, "included tree differs from the inlined text"); sx_reach("included");
}

/* large texts: many statements, lines, levels, arguments, elements, modifiers; long names, strings, comments */
static void w(char const *fmt, int i) { N += sprintf((char*)S + N, fmt, i); }
void h_many(void)
{
    static int const SZ[] = { 5, 9, 17, 33, 70, 130 }; int k = ch("shape", 0, 9), n = SZ[ch("size", 0, (int)sx_param("sizes", 6) - 1)], at = ch("at", 0, 2) * (n - 1) / 2, hole = -1; S = malloc(8192); N = 0;
#define HOLE(i) do { if ((i) == at) { hole = N; w(" ", 0); } } while (0)
    if (k == 0) for (int i = 0; i < n; i++) { w(i % 5 == 1 ? "{b();}" : i % 5 == 3 ? "use <x%d>" : "a(%d)", i); HOLE(i); w(i % 5 == 3 ? "\n" : ";\n", 0); }
    if (k == 1) { for (int i = 0; i < n; i++) { w("a%d(){", i); HOLE(i); if (i % 3 == 0) w("b(%d);\n", i); } for (int i = 0; i < n; i++) w("c();}", 0); }
    if (k == 2) { for (int i = 0; i < n; i++) { w("a(%d)", i); HOLE(i); if (i % 7 == 6) w("\n", 0); } w(";", 0); }
    if (k == 3) { w("a(", 0); for (int i = 0; i < n; i++) { if (i) w(",", 0); w(i % 4 == 0 ? "%d" : i % 4 == 1 ? "k%d=2.5" : i % 4 == 2 ? "\"s%d\"" : "[1:%d]", i); HOLE(i); } w(");", 0); }
    if (k == 4) { w("a([", 0); for (int i = 0; i < n; i++) { if (i) w(",", 0); w(i % 4 == 0 ? "%d" : i % 4 == 1 ? "-2.%de1" : i % 4 == 2 ? "\"s%d\"" : "[[],%d]", i); HOLE(i); } w("]);", 0); }
    if (k == 5) { w("a(", 0); for (int i = 0; i < n; i++) { w("[%d,", i); HOLE(i); } w("0", 0); for (int i = 0; i < n; i++) w(i % 2 ? "]" : ",x]", 0); w(");", 0); }
    if (k == 6) { w("i", 0); for (int i = 0; i < n; i++) w("_%d", i % 10); w("(\"", 0); for (int i = 0; i < n; i++) { w("s\\\\%d", i % 10); HOLE(i); } w("\");", 0); }
    if (k == 7) { for (int i = 0; i < n; i++) w(i % 4 == 0 ? "!" : i % 4 == 1 ? "#" : i % 4 == 2 ? "%%" : "*", 0); HOLE(at); w("a();", 0); }
    if (k == 8) { w("a();/*", 0); for (int i = 0; i < n; i++) { w("c*%d\n", i); HOLE(i); } w("*/b();//", 0); for (int i = 0; i < n; i++) w("d/", 0); w("\nc();", 0); }
    if (k == 9) { for (int i = 0; i < n; i++) { w("\n\t", 0); if (i == at) { w("a(", 0); hole = N; w("1);", 0); } } }
    if (ch("any byte", 0, 1)) S[hole] = sx_byte("byte");
    run(); chk_loc(F + hole); chk_loc(F + N - 1);
}
