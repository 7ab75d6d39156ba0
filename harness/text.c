/* C26: UTF-8, escapes, string buffers, string streams */
#include "common.h"
#include <stdio.h>
#include <hob3lbase/utf8.h>
#include <hob3lbase/vchar.h>
#include <hob3lbase/stream.h>
static int reflen(unsigned u) { return u < 0x80 ? 1 : u < 0x800 ? 2 : u < 0x10000 ? 3 : 4; }
void h_utf8_round(void)
{
    unsigned u = (unsigned)sx_int("u", 1, 0x10ffff); sx_assume(u < 0xd800 || u > 0xdfff);
    CHECK(cp_utf8_ok(u), "scalar value not accepted");
    int n = ch("room", 0, 4); char *b = malloc(n + 1); memset(b, 0, n + 1);
    size_t l = cp_utf8_encode(b, n, u);
    CHECK(b[n] == 0, "written past the buffer");
    if (n < reflen(u)) { CHECK(l == 0, "encoded into a too small buffer"); sx_reach("no room"); return; }
    CHECK(l == (size_t)reflen(u), "encoded length is wrong");
    b[l] = 0; /* n >= l */
    int form = ch("bounded", 0, 1);
    cp_utf8_iter_t it = { .data = b, .size = form ? l : ~(size_t)0 };
    unsigned r = cp_utf8_decode(&it);
    CHECK(it.error_msg == NULL, "own encoding rejected"); CHECK(r == u, "decoding does not give the encoded value"); CHECK(it.data == b + l, "decoder did not consume the sequence");
    CHECK(cp_utf8_decode(&it) == 0 && it.error_msg == NULL && it.data == b + l, "end not recognised");
    char const *t = b; unsigned k = cp_utf8_take(&t); CHECK(k == u && t == b + l, "take differs from decode");
    sx_reach("round trip");
}
void h_utf8_ok(void)
{
    unsigned u = (unsigned)sx_u64("u");
    CHECK(cp_utf8_ok(u) == (u != 0 && u <= 0x10ffff && !(u >= 0xd800 && u <= 0xdfff)), "wrong set of encodable values"); sx_reach("ok");
}
/* reference: length of the valid sequence at b (n bytes), 0 = invalid, value in *u */
static int ref(unsigned char const *b, int n, unsigned *u)
{
    unsigned c = b[0]; int l; unsigned min;
    if (c < 0x80) { *u = c; return 1; }
    if (c >= 0xc0 && c < 0xe0) { l = 2; *u = c & 0x1f; min = 0x80; }
    else if (c >= 0xe0 && c < 0xf0) { l = 3; *u = c & 0xf; min = 0x800; }
    else if (c >= 0xf0 && c < 0xf8) { l = 4; *u = c & 7; min = 0x10000; }
    else return 0;
    for (int i = 1; i < l; i++) { if (i >= n || (b[i] & 0xc0) != 0x80) return 0; *u = *u << 6 | (b[i] & 0x3f); }
    if (*u < min || *u > 0x10ffff || (*u >= 0xd800 && *u < 0xe000)) return 0;
    return l;
}
void h_utf8_decode(void)
{
    int n = ch("n", 0, (int)sx_param("n", 5)), form = ch("bounded", 0, 1);
    unsigned char *b = malloc(n + !form); for (int i = 0; i < n; i++) b[i] = sx_byte("b"); if (!form) b[n] = 0;
    cp_utf8_iter_t it = { .data = (char*)b, .size = form ? n : ~(size_t)0 };
    int at = 0;
    for (int step = 0; step <= n; step++) {
        char const *p = it.data; CHECK(p == (char*)b + at, "decoder position is wrong");
        unsigned r = cp_utf8_decode(&it);
        if (at == n || b[at] == 0) { CHECK(r == 0 && !it.error_msg && it.data == p, "end of text not recognised"); sx_reach("end"); return; }
        unsigned u = 0; int l = ref(b + at, n - at, &u);
        if (l == 0) { CHECK(r == 0, "invalid sequence decoded"); CHECK(it.error_msg != NULL, "invalid sequence not reported"); CHECK(it.data == p, "error position is wrong"); sx_reach("invalid"); return; }
        CHECK(it.error_msg == NULL, "valid sequence rejected"); CHECK(r == u, "wrong code point"); at += l; sx_reach("valid");
    }
}
static int hexv(unsigned c) { return c >= '0' && c <= '9' ? (int)c - '0' : c >= 'a' && c <= 'f' ? (int)c - 'a' + 10 : c >= 'A' && c <= 'F' ? (int)c - 'A' + 10 : -1; }
void h_escape(void)
{
    int n = ch("n", 1, 8); unsigned char *b = malloc(n); b[0] = '\\';
    for (int i = 1; i < n; i++) b[i] = sx_byte("b");
    if (n < 2 || b[1] == 0) { sx_reach("cut off"); return; } /* cannot come from the lexer */
    cp_utf8_iter_t it = { .data = (char*)b, .size = n };
    unsigned r = cp_utf8_escaped_decode(&it);
    int len = 0; unsigned u = 0, max = 0x10ffff; int bad = 0;
    switch (b[1]) {
    case '\\': case '\'': case '"': u = b[1]; break;
    case 't': u = 9; break; case 'n': u = 10; break; case 'r': u = 13; break;
    case 'x': len = 2; max = 0x7f; break; case 'u': len = 4; break; case 'U': len = 6; break;
    default: bad = 1;
    }
    for (int i = 0; i < len && !bad; i++) { int h = 2 + i < n ? hexv(b[2 + i]) : -1; if (h < 0) bad = 1; else u = u * 16 + h; }
    if (u > max) bad = 1;
    if (bad) { CHECK(r == 0 && it.error_msg != NULL, "malformed escape accepted"); CHECK(it.data == (char*)b, "error position is wrong"); sx_reach("malformed"); return; }
    CHECK(it.error_msg == NULL, "valid escape rejected"); CHECK(r == u, "escape denotes a wrong code point"); CHECK(it.data == (char*)b + 2 + len, "escape consumed a wrong length"); sx_reach("escape");
}
static unsigned char S[30000]; static int nS;
static void chk(cp_vchar_t *v)
{
    CHECK(v->size == (size_t)nS, "string size is wrong");
    char const *c = cp_vchar_cstr(v); CHECK(c == v->data && v->alloc > v->size, "no room for the terminator");
    for (int i = 0; i < nS; i++) CHECK((unsigned char)c[i] == S[i], "string content is wrong");
    CHECK(c[nS] == 0, "string is not NUL-terminated"); CHECK(v->size == (size_t)nS, "asking for the C string changed the size");
}
void h_vchar(void)
{
    cp_vchar_t v; cp_vchar_init(&v); nS = 0; int K = (int)sx_param("ops", 4);
    for (int o = 0; o < K; o++) {
        int op = ch("op", 0, 9); char t[24]; int n; unsigned char c;
        switch (op) {
        case 0: c = sx_byte("c"); cp_vchar_push(&v, (char)c); S[nS++] = c; break;
        case 1: n = ch("n", 0, 9); for (int i = 0; i < n; i++) t[i] = (char)sx_byte("c"); cp_vchar_append_arr(&v, t, n); memcpy(S + nS, t, n); nS += n; break;
        case 2: n = ch("n", 0, 5); for (int i = 0; i < n; i++) { t[i] = (char)sx_byte("c"); sx_assume(t[i] != 0); } t[n] = 0; cp_vchar_append_str(&v, t); memcpy(S + nS, t, n); nS += n; break;
        case 3: { cp_vchar_t w; cp_vchar_init(&w); n = ch("n", 0, 3); for (int i = 0; i < n; i++) { t[i] = (char)sx_byte("c"); cp_vchar_push(&w, t[i]); } cp_vchar_append(&v, &w); memcpy(S + nS, t, n); nS += n; cp_vchar_fini(&w); CHECK(w.size == 0 && w.data == NULL, "finished string still holds data"); break; }
        case 4: if (!nS) break; c = (unsigned char)cp_vchar_pop(&v); CHECK(c == S[nS - 1], "popped character is wrong"); nS--; break;
        case 5: cp_vchar_clear(&v); nS = 0; break;
        case 6: { int m = ch("w", 0, 14); char q[32]; for (int i = 0; i < m; i++) { q[i] = (char)sx_byte("c"); sx_assume(q[i] != 0); } q[m] = 0; char d[2] = { (char)sx_int("d", 'a', 'z'), 0 }; cp_vchar_printf(&v, "<%s|%s%c>", q, d, d[0]); S[nS++] = '<'; memcpy(S + nS, q, m); nS += m; S[nS++] = '|'; S[nS++] = d[0]; S[nS++] = d[0]; S[nS++] = '>'; sx_reach("printf"); break; }
        case 7: { cp_vchar_t w; cp_vchar_init(&w); c = sx_byte("c"); cp_vchar_push(&w, (char)c); cp_vchar_swap(&v, &w); int m = nS; CHECK(w.size == (size_t)m, "swap lost the content"); for (int i = 0; i < m; i++) CHECK((unsigned char)w.data[i] == S[i], "swap changed the content"); S[0] = c; nS = 1; cp_vchar_fini(&w); break; }
        case 8: { cp_stream_t *s = CP_STREAM_FROM_VCHAR(&v); unsigned x = (unsigned)ch("x", 0, 3); char q[2] = { (char)sx_int("d", 'a', 'z'), 0 }; cp_printf(s, "%u%s", x * 37, q); char e[8]; int k = snprintf(e, 8, "%u", x * 37); memcpy(S + nS, e, k); nS += k; S[nS++] = q[0]; sx_reach("stream"); break; }
        default: { cp_stream_t *s = CP_STREAM_FROM_VCHAR(&v); n = ch("n", 1, 6); for (int i = 0; i < n; i++) t[i] = (char)sx_byte("c"); cp_write(s, t, n); memcpy(S + nS, t, n); nS += n; break; }
        }
        chk(&v);
    }
    cp_vchar_fini(&v); sx_reach("done");
}

/* long pieces */
void h_vchar_many(void)
{
    static int const LN[] = { 0, 1, 3, 4, 7, 8, 15, 16, 31, 63, 64, 255, 256, 1000, 4096, 10000 }; static char t[10001]; cp_vchar_t v; cp_vchar_init(&v); nS = 0;
    for (int o = 0; o < 2; o++) {
        int op = ch("op", 0, 5), n = LN[ch("n", 0, 15)]; if (o == 0 && n > 0 && ch("cut", 0, 1)) n--; for (int i = 0; i < n; i++) t[i] = (char)(1 + (i * 37 + o) % 255); t[n] = 0;
        if (n && op != 5) { int c = (int)sx_byte("c"); sx_assume(c != 0); t[n - 1] = (char)c; }
        switch (op) {
        case 0: cp_vchar_append_arr(&v, t, (size_t)n); break;
        case 1: cp_vchar_append_str(&v, t); break;
        case 2: for (int i = 0; i < n; i++) cp_vchar_push(&v, t[i]); break;
        case 3: cp_vchar_printf(&v, "%s", t); sx_reach("printf"); break;
        case 4: cp_write(CP_STREAM_FROM_VCHAR(&v), t, (size_t)n); sx_reach("stream"); break;
        default: { cp_vchar_t w; cp_vchar_init(&w); cp_vchar_append_arr(&w, t, (size_t)n); cp_vchar_append(&v, &w); cp_vchar_fini(&w); break; }
        }
        memcpy(S + nS, t, (size_t)n); nS += n; int bad = v.size != (size_t)nS; CHECK(!bad, "wrong size"); if (nS) bad = memcmp(v.data, S, (size_t)nS) != 0; CHECK(!bad, "wrong content"); CHECK(cp_vchar_cstr(&v)[nS] == 0, "not terminated");
    }
    for (int k = ch("pop", 0, 2) * nS / 2; k > 0; k--) { nS--; char c = cp_vchar_pop(&v); CHECK((unsigned char)c == S[nS], "popped character is wrong"); }
    CHECK(v.size == (size_t)nS && cp_vchar_cstr(&v)[nS] == 0, "wrong size after removal"); cp_vchar_fini(&v); sx_reach("done");
}
