/* C01 exact arithmetic, C04 import/export */
#include "common.h"
#include <limits.h>
#include <hob3lop/matq.h>
#include <hob3lop/gon.h>
typedef __int128 i128; typedef unsigned __int128 u128;
static unsigned uabs(int x) { return x < 0 ? 0u - (unsigned)x : (unsigned)x; }
static unsigned long long wabs(long long x) { return x < 0 ? 0ull - (unsigned long long)x : (unsigned long long)x; }
/* Euclidean correction of C's truncating quotient and remainder (exact, in a wider type) */
static void corr(i128 *q, i128 *r, i128 q0, i128 r0, i128 d) { if (r0 < 0) { if (d > 0) { q0 -= 1; r0 += d; } else { q0 += 1; r0 -= d; } } *q = q0; *r = r0; }
void h_divmod(void)
{
    int x = (int)sx_u64("x"), d = (int)sx_u64("d"); sx_assume(d != 0); sx_assume(x != INT_MIN && d != INT_MIN);
    cq_divmod_t v = cq_divmod(x, d); i128 q, r; corr(&q, &r, x / d, x % d, d);
    CHECK((i128)v.div == (int)q, "quotient is wrong"); CHECK((i128)v.mod == (int)r, "remainder is wrong");
    CHECK(cq_div(x, d) == v.div && cq_mod(x, d) == v.mod, "div/mod differ from divmod"); sx_reach("divmod");
}
void h_divmodw(void)
{
    long long x = (long long)sx_u64("x"), d = (long long)sx_u64("d"); sx_assume(d != 0); sx_assume(x != LLONG_MIN && d != LLONG_MIN);
    cq_divmodw_t v = cq_divmodw(x, d); i128 q, r; corr(&q, &r, x / d, x % d, d);
    CHECK((i128)v.div == (long long)q, "quotient is wrong"); CHECK((i128)v.mod == (long long)r, "remainder is wrong");
    CHECK(cq_divw(x, d) == v.div && cq_modw(x, d) == v.mod, "div/mod differ from divmod"); sx_reach("divmodw");
}
/* quotient must fit */
void h_divmodx(void)
{
    long long x = (long long)sx_u64("x"); int d = (int)sx_u64("d"); sx_assume(d != 0); sx_assume(x != LLONG_MIN && d != INT_MIN);
    i128 q, r; corr(&q, &r, x / d, x % d, d);
    sx_assume(q >= INT_MIN && q <= INT_MAX);
    cq_divmod_t v = cq_divmodx(x, d);
    CHECK((i128)v.div == q, "quotient is wrong"); CHECK((i128)v.mod == (int)r, "remainder is wrong"); CHECK(cq_divx(x, d) == v.div && cq_modx(x, d) == v.mod, "div/mod differ from divmod"); sx_reach("divmodx");
}
/* defining equation and range on short operands placed at any power of two */
void h_div_eq(void)
{
    int n = (int)sx_param("bits", 7), op = ch("op", 0, 3), sx_ = op == 0 ? ch("sx", 0, 1) * 18 : ch("sx", 0, 2) * 19, sd = op == 0 ? ch("sd", 0, 1) * 18 : op == 2 ? ch("sd", 0, 1) * 18 : ch("sd", 0, 2) * 19;
    long long x = sx_int("x", -(1 << n), 1 << n) * (1ll << sx_), d = ch("d", -(1 << (n - 1)), 1 << (n - 1)); sx_assume(d != 0); d *= 1ll << sd; i128 q, r;
    if (op == 0) { cq_divmod_t v = cq_divmod((int)x, (int)d); q = v.div; r = v.mod; }
    else if (op == 1) { cq_divmodw_t v = cq_divmodw(x, d); q = v.div; r = v.mod; }
    else if (op == 2) { sx_assume((x < 0 ? -x : x) / (d < 0 ? -d : d) < (1ll << 30)); cq_divmod_t v = cq_divmodx(x, (int)d); q = v.div; r = v.mod; }
    else { sx_assume(d > 0); q = cq_divw_rnd(x, d); CHECK(2 * (q * d - x) <= d && 2 * (x - q * d) < d, "rounded quotient is not nearest"); sx_reach("rounded"); return; }
    CHECK(q * d + r == x, "quotient times divisor plus remainder is not the dividend"); CHECK(r >= 0 && r < (d < 0 ? -(i128)d : (i128)d), "remainder out of range"); sx_reach("equation");
}
/* rounding division used for slicing: nearest, halves up, positive divisor */
void h_div_rnd(void)
{
    long long x = (long long)sx_u64("x"), d = (long long)sx_u64("d"); sx_assume(d > 0 && x != LLONG_MIN && d < LLONG_MAX);
    i128 q, r; corr(&q, &r, x / d, x % d, d); unsigned long long R = (unsigned long long)(long long)r;
    sx_assume(R < (unsigned long long)d); /* fact about division, checked in h_div_eq */
    if (2 * R >= (unsigned long long)d) q++;
    CHECK((long long)q == cq_divw_rnd(x, d), "rounded quotient is wrong"); sx_reach("rnd");
}
/* checked operations: representable => exact value and no failure */
void h_checked(void)
{
    int op = ch("op", 0, 15); int a = (int)sx_u64("a"), b = (int)sx_u64("b"); long long A = (long long)sx_u64("A"), B = (long long)sx_u64("B");
    i128 w; i128 lo = LLONG_MIN, hi = LLONG_MAX; i128 UH = (i128)~0ull;
    switch (op) {
    case 0: w = (i128)a + b; sx_assume(w >= INT_MIN && w <= INT_MAX); CHECK(cq_dim_add(a, b) == w, "sum"); break;
    case 1: w = (i128)a - b; sx_assume(w >= INT_MIN && w <= INT_MAX); CHECK(cq_dim_sub(a, b) == w, "difference"); break;
    case 2: w = (i128)A + B; sx_assume(w >= lo && w <= hi); CHECK(cq_dimw_add(A, B) == w, "wide sum"); break;
    case 3: w = (i128)A - B; sx_assume(w >= lo && w <= hi); CHECK(cq_dimw_sub(A, B) == w, "wide difference"); break;
    case 4: w = (i128)(unsigned)a + (unsigned)b; sx_assume(w <= UINT_MAX); CHECK(cq_udim_add(a, b) == w, "unsigned sum"); break;
    case 5: w = (i128)(unsigned)a - (unsigned)b; sx_assume(w >= 0); CHECK(cq_udim_sub(a, b) == w, "unsigned difference"); break;
    case 6: w = (i128)(unsigned long long)A + (unsigned long long)B; sx_assume(w <= UH); CHECK(cq_udimw_add(A, B) == w, "wide unsigned sum"); break;
    case 7: w = (i128)(unsigned long long)A - (unsigned long long)B; sx_assume(w >= 0); CHECK(cq_udimw_sub(A, B) == w, "wide unsigned difference"); break;
    case 8: CHECK(cq_dim_mul(a, b) == (long long)a * b, "product"); break;
    case 9: CHECK(cq_udim_mul(a, b) == (unsigned long long)(unsigned)a * (unsigned)b, "unsigned product"); break;
    case 10: sx_assume(a != INT_MIN); CHECK(cq_dim_neg(a) == -(i128)a, "negation"); CHECK(cq_udim_abs(a) == uabs(a), "absolute value"); break;
    case 11: sx_assume(A != LLONG_MIN); CHECK(cq_dimw_neg(A) == -(i128)A, "wide negation"); CHECK(cq_udimw_abs(A) == wabs(A), "wide absolute value"); break;
    case 12: CHECK(cq_udimw(cq_udimw_hi(A), cq_udimw_lo(A)) == (unsigned long long)A, "halves"); break;
    case 13: { unsigned r; int o = cq_udim_add_ovf(&r, a, b); CHECK(o == ((unsigned)a + (unsigned long long)(unsigned)b > UINT_MAX) && r == (unsigned)a + (unsigned)b, "carry"); o = cq_udim_sub_ovf(&r, a, b); CHECK(o == ((unsigned)a < (unsigned)b) && r == (unsigned)a - (unsigned)b, "borrow"); break; }
    case 14: { cq_udimq_t p = cq_udimq(A, B), q = cq_udimq(B, A); unsigned long long X = A, Y = B; CHECK(cq_udimq_max(p) == X && cq_udimq_min(p) == Y, "quad halves"); CHECK(cq_udimq_cmp(p, q) == (X < Y ? -1 : X > Y), "quad comparison"); CHECK(cq_udimq_eq(p, q) == (X == Y), "quad equality"); break; }
    default: a = (int)sx_int("p", -(1 << 29), 1 << 29); b = (int)sx_int("q", -(1 << 29), 1 << 29); CHECK(cq_sqr_len(a, b) == (long long)a * a + (long long)b * b, "squared length"); break;
    }
    sx_reach("checked");
}
/* overflow is reported (process ends) whenever the result is not representable: reaching the code behind the call is wrong */
void h_overflow(void)
{
    int op = ch("op", 0, 9); int a = (int)sx_u64("a"), b = (int)sx_u64("b"); long long A = (long long)sx_u64("A"), B = (long long)sx_u64("B");
    i128 w; i128 lo = LLONG_MIN, hi = LLONG_MAX; volatile long long sink;
    switch (op) {
    case 0: w = (i128)a + b; sx_assume(w < INT_MIN || w > INT_MAX); sx_opt("expectfail", 1); sink = cq_dim_add(a, b); break;
    case 1: w = (i128)a - b; sx_assume(w < INT_MIN || w > INT_MAX); sx_opt("expectfail", 1); sink = cq_dim_sub(a, b); break;
    case 2: w = (i128)A + B; sx_assume(w < lo || w > hi); sx_opt("expectfail", 1); sink = cq_dimw_add(A, B); break;
    case 3: w = (i128)A - B; sx_assume(w < lo || w > hi); sx_opt("expectfail", 1); sink = cq_dimw_sub(A, B); break;
    case 4: w = (i128)(unsigned)a + (unsigned)b; sx_assume(w > UINT_MAX); sx_opt("expectfail", 1); sink = cq_udim_add(a, b); break;
    case 5: sx_assume((unsigned)a < (unsigned)b); sx_opt("expectfail", 1); sink = cq_udim_sub(a, b); break;
    case 6: w = (i128)(unsigned long long)A + (unsigned long long)B; sx_assume(w > (i128)~0ull); sx_opt("expectfail", 1); sink = cq_udimw_add(A, B); break;
    case 7: sx_assume((unsigned long long)A < (unsigned long long)B); sx_opt("expectfail", 1); sink = cq_udimw_sub(A, B); break;
    case 8: sx_opt("expectfail", 1); sink = cq_dim_neg(INT_MIN); break;
    default: { sx_assume(b != 0 && b != INT_MIN && A != LLONG_MIN); i128 q, r; corr(&q, &r, A / b, A % b, b); sx_assume(q < INT_MIN || q > INT_MAX); sx_opt("expectfail", 1); sink = cq_divx(A, b); break; }
    }
    CHECK(0, "overflow not reported");
}
/* 64 x 64 -> 128 bit product, by limbs, against schoolbook sum of the same partial products and against the machine product */
void h_mul_wide(void)
{
    static int const KS[] = { 0, 1, 7, 16, 31, 32, 33, 47, 62, 63 };
    int form = ch("form", 0, 3), k = form ? KS[ch("ki", 0, 9)] : ch("k", 0, 63); unsigned long long a, b;
    if (form == 0) a = sx_u64("a"); else { int p = ch("at", 0, 6); a = (unsigned long long)sx_int("a", 0, (1 << 9) - 1) << (9 * p); }
    b = form == 0 ? 1ull << k : form == 1 ? (1ull << k) - 1 : form == 2 ? ~0ull << k : ~(1ull << k);
    cq_udimq_t r = cq_udimw_mul_aux(a, b), s = cq_udimw_mul_aux(b, a), t = cq_udimw_mul(a, b);
    u128 w = form == 0 ? (u128)a << k : form == 1 ? ((u128)a << k) - a : form == 2 ? ((u128)a << 64) - ((u128)a << k) : ((u128)a << 64) - a - ((u128)a << k);
    unsigned long long h = (unsigned long long)(w >> 64), l = (unsigned long long)w;
    CHECK(cq_udimq_max(r) == h && cq_udimq_min(r) == l, "wide product is wrong"); CHECK(cq_udimq_max(s) == h && cq_udimq_min(s) == l, "wide product is not commutative"); CHECK(cq_udimq_max(t) == h && cq_udimq_min(t) == l, "machine wide product is wrong");
    sx_reach("mul");
}
void h_mul_limb(void)
{
    unsigned long long a = sx_u64("a"), b = sx_u64("b");
    /* operands with 16 significant bits in any limb positions */
    int pa = ch("pa", 0, 3), pb = ch("pb", 0, 3); int n = (int)sx_param("bits", 6);
    a &= ((1ull << n) - 1); b &= ((1ull << n) - 1); unsigned long long c = ch("low", 0, 1) ? 0xffffffffull : 0;
    unsigned long long A = (a << (16 * pa)) | (pa >= 2 ? c : 0), B = (b << (16 * pb)) | (pb >= 2 ? c : 0);
    cq_udimq_t r = cq_udimw_mul_aux(A, B); u128 w = ((u128)(a * b)) << (16 * (pa + pb));
    if (pa >= 2 && c) w += ((u128)(b << (16 * pb)) << 32) - (b << (16 * pb));
    if (pb >= 2 && c) w += ((u128)(a << (16 * pa)) << 32) - (a << (16 * pa));
    if (pa >= 2 && pb >= 2 && c) w += (u128)0xffffffffull * 0xffffffffull;
    CHECK(cq_udimq_max(r) == (unsigned long long)(w >> 64) && cq_udimq_min(r) == (unsigned long long)w, "wide product is wrong"); sx_reach("limb");
}
/* fractions i + n/d */
static cq_dimif_t frac(char const *p, int dmax, int sh)
{
    cq_dimif_t f; f.i = (int)sx_int(p, -3, 3); unsigned long long d = (unsigned long long)sx_int(p, 1, dmax), n = (unsigned long long)sx_int(p, 0, dmax - 1); sx_assume(n < d);
    f.d = d << sh; f.n = n << sh; return f;
}
static int sgn(i128 x) { return x < 0 ? -1 : x > 0; }
void h_frac_cmp(void)
{
    int m = (int)sx_param("d", 12), sa = 30 * ch("sa", 0, 1), sb = 30 * ch("sb", 0, 1);
    cq_dimif_t a = frac("a", m, sa), b = frac("b", m, sb);
    i128 an = a.n >> sa, ad = a.d >> sa, bn = b.n >> sb, bd = b.d >> sb;
    int fr = sgn(an * bd - bn * ad), w = sgn(((i128)a.i * ad + an) * bd - ((i128)b.i * bd + bn) * ad);
    CHECK(cq_dimif_cmp_frac(&a, &b) == fr, "fraction comparison is wrong");
    CHECK(cq_dimif_cmp_frac_aux(&a, &b) == fr, "fraction comparison (fast path) is wrong");
    CHECK(cq_dimif_cmp(&a, &b) == w && cq_dimif_cmp(&b, &a) == -w, "comparison of mixed numbers is wrong");
    CHECK(cq_dimif_eq(&a, &b) == (w == 0), "equality of mixed numbers is wrong");
    int z = (int)sx_int("z", -4, 4);
    CHECK(cq_dim_dimif_cmp(z, &a) == sgn((i128)z * ad - ((i128)a.i * ad + an)), "comparison of an integer with a mixed number is wrong");
    cq_vec2if_t p = { a, b }, q = { b, a }; int l = w ? w : -w; 
    CHECK(cq_vec2if_cmp(&p, &q) == l, "point comparison is wrong"); CHECK(cq_vec2if_eq(&p, &q) == (w == 0), "point equality is wrong");
    sx_reach("cmp");
}
/* comparison with near-maximal denominators */
void h_frac_big(void)
{
    unsigned long long top = ~0ull; static int const KS[] = { 32, 33, 40, 48, 62, 63 }; int k = KS[ch("ki", 0, 5)];
    unsigned long long d1 = (1ull << k) - (unsigned long long)ch("e1", 0, (int)sx_param("e", 3)) + 2 * (k < 63), d2 = (1ull << k) - (unsigned long long)sx_int("e2", 0, 7) + 4 * (k < 63);
    unsigned long long x1 = (unsigned long long)ch("x1", 0, 2), x2 = (unsigned long long)ch("x2", 0, 2);
    int near1 = ch("near", 0, 1); unsigned long long n1 = near1 ? d1 - 1 - x1 : x1, n2 = near1 ? d2 - 1 - x2 : x2;
    cq_dimif_t a = { .i = 0, .n = n1, .d = d1 }, b = { .i = 0, .n = n2, .d = d2 };
    /* n1/d1 ? n2/d2:  near 1: compare (1+x1)/d1 with (1+x2)/d2 reversed */
    i128 l = near1 ? (i128)(1 + x2) * d1 : (i128)x1 * d2, r = near1 ? (i128)(1 + x1) * d2 : (i128)x2 * d1;
    int w = l < r ? -1 : l > r; (void)top;
    CHECK(cq_dimif_cmp_frac(&a, &b) == w, "fraction comparison is wrong"); CHECK(cq_dimif_cmp_frac_aux(&a, &b) == w, "fraction comparison (fast path) is wrong"); sx_reach("big");
}
void h_round(void)
{
    cq_dimif_t f; f.i = (int)sx_u64("i"); f.d = sx_u64("d"); f.n = sx_u64("n"); sx_assume(f.d > 0 && f.n < f.d); sx_assume(f.i < INT_MAX);
    int up = f.n >= f.d - f.n; /* n/d >= 1/2 */
    CHECK(cq_round(&f) == f.i + up, "rounding to the grid is wrong"); sx_reach("round");
    double g = 0; if (ch("fp", 0, 1)) { f.d = 1ull << ch("sh", 0, 20); f.n = (unsigned long long)sx_int("m", 0, 1 << 20); sx_assume(f.n < f.d); f.i = (int)sx_int("j", -100000, 100000); g = cq_f_from_dimif(&f); CHECK(g * f.d == (double)f.i * f.d + f.n, "floating point value of a fraction is wrong"); sx_reach("value"); }
}
/* points of the pixel grid vs mixed numbers */
void h_vec_cmp(void)
{
    int m = (int)sx_param("d", 12); cq_dimif_t x = frac("x", m, 0), y = frac("y", m, 0); cq_vec2if_t p = { x, y };
    cq_vec2_t v = { .x = (int)sx_int("vx", -4, 4), .y = (int)sx_int("vy", -4, 4) };
    i128 cx = (i128)v.x * x.d - ((i128)x.i * x.d + x.n), cy = (i128)v.y * y.d - ((i128)y.i * y.d + y.n);
    CHECK(cq_vec2_vec2if_cmp(&v, &p) == (cx ? sgn(cx) : sgn(cy)), "comparison of a grid point with an exact point is wrong");
    cq_vec2if_t w = cq_vec2if_from_vec2(&v); CHECK(cq_vec2if_cmp(&w, &p) == (cx ? sgn(cx) : sgn(cy)), "comparison of exact points is wrong"); CHECK(w.x.i == v.x && w.x.n == 0 && w.x.d > 0 && w.y.i == v.y && w.y.n == 0, "conversion to an exact point is wrong"); sx_reach("vec");
}
void h_cross(void)
{
    int B = 1 << (int)sx_param("cbits", 30); int c[6]; for (int i = 0; i < 6; i++) { c[i] = (int)sx_int("c", -B / 2 + 1, B / 2 - 1); }
    cq_vec2_t a = { .x = c[0], .y = c[1] }, o = { .x = c[2], .y = c[3] }, b = { .x = c[4], .y = c[5] };
    i128 w = (i128)(a.x - o.x) * (b.y - o.y) - (i128)(a.y - o.y) * (b.x - o.x);
    CHECK(cq_vec2_right_cross3_z(&a, &o, &b) == w, "cross product is wrong");
    CHECK(cq_vec2_sqr_dist(&a, &b) == (i128)(a.x - b.x) * (a.x - b.x) + (i128)(a.y - b.y) * (a.y - b.y), "squared distance is wrong"); sx_reach("cross");
}
