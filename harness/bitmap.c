/* C07 (tables): combination bitmaps */
#include "common.h"
#include <hob3lbase/panic.h>
#include <hob3lbase/bool-bitmap_tam.h>
#include <hob3l/csg2_tam.h>
#include <hob3lbase/bool-bitmap.h>
static int bad;
/* bits are compared in groups of 64 */
#define EQ(a, b, i, m) do { bad |= (a) ^ (b); if (((i) & 63) == 63) { CHECK(bad == 0, m); bad = 0; } } while (0)
#define MAXL CP_BOOL_BITMAP_MAX_LAZY
static void any(cp_bool_bitmap_t *m) { for (size_t i = 0; i < cp_countof(m->w); i++) m->w[i] = sx_u64("w"); }
void h_bm_spread(void)
{
    cp_bool_bitmap_t m, o; any(&m); o = m;
    int have = ch("have", 0, MAXL), add = ch("add", 0, MAXL - have);
    cp_bool_bitmap_spread(&m, have, add);
    size_t want = (size_t)have + add;
    for (size_t i = 0; i < (1UL << want); i++) EQ(cp_bool_bitmap_get(&m, i), cp_bool_bitmap_get(&o, i >> add), i, "spread bit is wrong"); 
    CHECK(bad == 0, "bit is wrong");
    sx_reach("spread");
}
void h_bm_repeat(void)
{
    cp_bool_bitmap_t m, o; any(&m); o = m;
    int have = ch("have", 0, MAXL), add = ch("add", 0, MAXL - have);
    cp_bool_bitmap_repeat(&m, have, add);
    size_t want = (size_t)have + add;
    for (size_t i = 0; i < (1UL << want); i++) EQ(cp_bool_bitmap_get(&m, i), cp_bool_bitmap_get(&o, i & ((1UL << have) - 1)), i, "repeated bit is wrong");
    CHECK(bad == 0, "bit is wrong");
    sx_reach("repeat");
}
void h_bm_combine(void)
{
    cp_bool_bitmap_t m, o, b; any(&m); any(&b); o = m;
    int size = ch("size", 0, MAXL), op = ch("op", 0, 3);
    cp_bool_op_t const ops[] = { CP_OP_ADD, CP_OP_CUT, CP_OP_SUB, CP_OP_XOR };
    cp_bool_bitmap_combine(&m, &b, size, ops[op]);
    for (size_t i = 0; i < (1UL << size); i++) {
        int x = cp_bool_bitmap_get(&o, i), y = cp_bool_bitmap_get(&b, i);
        int r = op == 0 ? (x | y) : op == 1 ? (x & y) : op == 2 ? (x & !y) : (x ^ y);
        EQ(cp_bool_bitmap_get(&m, i), r, i, "combined bit is wrong");
    }
    CHECK(bad == 0, "bit is wrong");
    sx_reach("combine");
}
void h_bm_set(void)
{
    sx_opt("concmax", 2000);
    cp_bool_bitmap_t m, o; any(&m); o = m;
    int at = 64 * ch("word", 0, (1 << MAXL) / 64 - 1) + ch("at", 0, 63), v = (int)sx_int("v", 0, 1);
    cp_bool_bitmap_set(&m, at, v);
    for (size_t i = 0; i < (1UL << MAXL); i++) EQ(cp_bool_bitmap_get(&m, i), (i == (size_t)at ? v : cp_bool_bitmap_get(&o, i)), i, "bit is wrong after setting one");
    CHECK(bad == 0, "bit is wrong");
    sx_reach("set");
}
