From 7c6475f470646ad4a01665bd727663ab86b675da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 01/72] fix: cp_v_insert_arr_: inserting a part of a vector
 into itself aborted

The test for a source range behind the insertion point compared against
the end of the inserted gap, and the assertion on a split range did not
take the inflation into account.
---
 src/hob3lbase/vec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index f36a21f..4563a33 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -315,7 +315,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size);
         }
         else
-        if (dst_end <= src_pos) {
+        if (dst_pos <= src_pos) {
             /* completely in last part */
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos+size, size);
         }
@@ -327,7 +327,7 @@ extern void *cp_v_insert_arr_(
             cp_v_copy_(m, dst, esz, dst_pos, dst, src_pos, size1);
 
             /* second part behind gap */
-            assert(dst_end < src_end);
+            assert(dst_end < src_end + size);
             size_t size2 = size - size1;
             assert(dst_end + size2 == src_end + size);
             cp_v_copy_(m, dst, esz, dst_pos+size1, dst, dst_end, size2);
-- 
2.43.0


From e8721064c8f0d929056940ccdd80bc78ff43d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 02/72] fix: heap make left the heap one element too large

The loop used the vector size as its counter and left it at size+1.
---
 src/hob3lbase/heap.c | 1 +
 src/hob3lbase/vec.c  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/hob3lbase/heap.c b/src/hob3lbase/heap.c
index d89a75d..ff3f094 100644
--- a/src/hob3lbase/heap.c
+++ b/src/hob3lbase/heap.c
@@ -108,6 +108,7 @@ extern void cp_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_heap_up_(vec, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
diff --git a/src/hob3lbase/vec.c b/src/hob3lbase/vec.c
index 4563a33..d79d537 100644
--- a/src/hob3lbase/vec.c
+++ b/src/hob3lbase/vec.c
@@ -577,6 +577,7 @@ extern void cp_v_heap_make_(
     for (vec->size = 2; vec->size <= size; vec->size++) {
         cp_v_heap_up_(vec, esz, cmp, user, vec->size-1);
     }
+    vec->size = size;
 }
 
 /**
-- 
2.43.0


From 97d05494cef276a94b941035e0eddb747b23f830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 03/72] fix: unknown colour name dereferenced NULL

---
 src/hob3l/gc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/gc.c b/src/hob3l/gc.c
index f2fe110..cc777a7 100644
--- a/src/hob3l/gc.c
+++ b/src/hob3l/gc.c
@@ -81,6 +81,9 @@ extern bool cp_color_by_name(
 
     /* by name */
     color_value_t const *c = color_find(name, len);
+    if (c == NULL) {
+        return false;
+    }
     rgb->r = (c->rgb >> 16) & 0xff;
     rgb->g = (c->rgb >> 8)  & 0xff;
     rgb->b = (c->rgb)       & 0xff;
-- 
2.43.0


From 8d506db240703d980211c0a780ff39120cad551f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 04/72] fix: bounding box of a sphere overwrote the maximum of
 other objects

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 2bf0ac5..4de6ad3 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -474,7 +474,7 @@ static void csg3_sphere_minmax1(
     double l = a - c;
     double h = a + c;
     if (l < bb->min.v[i]) { bb->min.v[i] = l; }
-    if (h > bb->min.v[i]) { bb->max.v[i] = h; }
+    if (h > bb->max.v[i]) { bb->max.v[i] = h; }
 }
 
 static void csg3_sphere_minmax(
-- 
2.43.0


From 1eaf4e8ec14066250b1ee2d3fa10ca68c4e1bbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:40 +0000
Subject: [PATCH 05/72] fix: hull() ignored the transformations around it

---
 src/hob3l/csg3.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 4de6ad3..53b4bc7 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1762,10 +1762,9 @@ static bool csg3_from_hull(
     ctxt_t c2 = *c;
     cp_v_obj_p_t rc = {0}; /* FIXME: temporary should be in pool */
 
-    /* start with fresh matrix in 2D space */
-    local_t mn = *m;
-    mn.mat = the_unit(c->tree);
-    if (!csg3_from_v_scad(no, &rc, &c2, &mn, &s->child)) {
+    /* the hull commutes with the transformation, so apply it to the
+     * children */
+    if (!csg3_from_v_scad(no, &rc, &c2, m, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
     }
-- 
2.43.0


From 4425c40dea2bb2762889f8151426d9ebf59c9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 06/72] fix: projection() ignored the transformations around it

---
 src/hob3l/csg3.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 53b4bc7..e108091 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1163,9 +1163,19 @@ static bool csg3_from_projection(
     cp_csg3_tree_t *csg3 = CP_NEW(*csg3);
     csg3_init_tree(csg3, s->loc);
 
-    /* start with fresh matrix in 2D space */
+    /* the cut commutes with the 2D part of the transformation, so apply
+     * that to the children */
+    cp_mat2w_t m2;
+    cp_mat2w_from_mat3w(&m2, &m->mat->n);
+    cp_mat2wi_t m2i;
+    if (!cp_mat2wi_from_mat2w(&m2i, &m2)) {
+        return msg(c, c->opt->err_collapse, s->loc, NULL,
+            "'projection' collapses into a line or point.\n");
+    }
+    cp_mat3wi_t *m3 = mat_new(c->tree);
+    cp_mat3wi_from_mat2wi(m3, &m2i);
     local_t mn = *m;
-    mn.mat = the_unit(c->tree);
+    mn.mat = m3;
     if (!csg3_from_v_scad(no, &csg3->root->add, &c2, &mn, &s->child)) {
         assert(c->err->msg.size > 0);
         return false;
-- 
2.43.0


From cbdefe206aeccb150e525e3e2c0c1e92e25ff48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 07/72] fix: cp_pool_calloc: derive the alignment from the size
 if 0 is passed, as documented

---
 src/hob3lbase/pool.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/pool.c b/src/hob3lbase/pool.c
index c1c7428..2a2bde3 100644
--- a/src/hob3lbase/pool.c
+++ b/src/hob3lbase/pool.c
@@ -215,6 +215,10 @@ extern void *cp_pool_calloc(
         return NULL;
     }
 
+    if (align == 0) {
+        align = cp_size_align(size1);
+    }
+
     for (size_t try = 0; try < 3; try++) {
         void *r = try_block_calloc(pool->used.head, nmemb, size1, align);
         if (r != NULL) {
-- 
2.43.0


From 614b76e1f0d9c0703ad136255ade12e62d5afece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 08/72] fix: cp_utf8_decode: continuation bytes contributed
 their marker bit

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 6eb9603..9bbb3f0 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -53,7 +53,7 @@ static inline bool get_cont(unsigned *result, char const *start, cp_utf8_iter_t
         return false;
     }
     iter_advance(iter);
-    *result = c2;
+    *result = c2 & 0x3f;
     return true;
 }
 
-- 
2.43.0


From 34b76a5918bc788ee5cfe4f72e378081675d3eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 09/72] fix: stream into a string passed the va_list to a
 variadic function

---
 include/hob3lbase/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hob3lbase/stream.h b/include/hob3lbase/stream.h
index 80f5f41..be587b5 100644
--- a/include/hob3lbase/stream.h
+++ b/include/hob3lbase/stream.h
@@ -25,7 +25,7 @@
 #define CP_STREAM_FROM_VCHAR(vchar) \
     (&(cp_stream_t){ \
         .data = (vchar), \
-        .vprintf = (cp_stream_vprintf_t)cp_vchar_printf, \
+        .vprintf = (cp_stream_vprintf_t)cp_vchar_vprintf, \
         .write = (cp_stream_write_t)cp_vchar_append_arr, \
     })
 
-- 
2.43.0


From 12db5d6febeef1148d2d1f9a77c4f449201fe0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:56 +0000
Subject: [PATCH 10/72] fix: hexadecimal escape with only its last digit
 missing was accepted

---
 src/hob3lbase/utf8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/utf8.c b/src/hob3lbase/utf8.c
index 9bbb3f0..2c6e33e 100644
--- a/src/hob3lbase/utf8.c
+++ b/src/hob3lbase/utf8.c
@@ -187,7 +187,6 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
     iter_advance(iter);
 
     while (len > 0) {
-        --len;
         uint8_t cx = iter_get(iter);
         if (cx == 0) {
             break;
@@ -198,6 +197,7 @@ extern unsigned cp_utf8_escaped_decode(cp_utf8_iter_t *iter)
         }
         iter_advance(iter);
         code = (code * base) + val;
+        --len;
     }
     if (len > 0) {
         iter_error(iter, start, "premature end of hexadecimal escape");
-- 
2.43.0


From 0a8314ecfd440d6310fca5dca60d6f45310cde64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 11/72] fix: cq_divmodx reported overflow for representable
 quotients

The check multiplied in the narrow type.  The Euclidean correction was
not checked.
---
 src/hob3lop/matq.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/src/hob3lop/matq.c b/src/hob3lop/matq.c
index 079f774..6419075 100644
--- a/src/hob3lop/matq.c
+++ b/src/hob3lop/matq.c
@@ -99,24 +99,14 @@ extern cq_divmod_t cq_divmodx(
     cq_dimw_t x,
     cq_dim_t d)
 {
+    cq_divmodw_t w = cq_divmodw(x, d);
     cq_divmod_t v = {
-        .div = (cq_dim_t)(x / d),
-        .mod = (cq_dim_t)(x % d)
+        .div = (cq_dim_t)w.div,
+        .mod = (cq_dim_t)w.mod
     };
-    if ((v.mod + (v.div * d)) != x) {
+    if (v.div != w.div) {
         cq_fail("overflow in divide");
     }
-    if (v.mod >= 0) {
-        return v;
-    }
-    if (d >= 0) {
-        v.div -= 1;
-        v.mod += d;
-    }
-    else {
-        v.div += 1;
-        v.mod -= d;
-    }
     return v;
 }
 
-- 
2.43.0


From dc37ca672cf2f0339dd4627c01c5ffee5c80a2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:29 +0000
Subject: [PATCH 12/72] fix: projecting a 3D bounding box to 2D dropped its
 maximum

---
 src/hob3lop/hedron.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3lop/hedron.c b/src/hob3lop/hedron.c
index 8835f04..bf6e7f6 100644
--- a/src/hob3lop/hedron.c
+++ b/src/hob3lop/hedron.c
@@ -20,6 +20,8 @@ extern void cq_vec3_minmax_minmax2(
 {
     cq_dim_minmax(&r->min.x, &r->max.x, v->min.v[coord0]);
     cq_dim_minmax(&r->min.y, &r->max.y, v->min.v[coord1]);
+    cq_dim_minmax(&r->min.x, &r->max.x, v->max.v[coord0]);
+    cq_dim_minmax(&r->min.y, &r->max.y, v->max.v[coord1]);
 }
 
 extern void cq_v_vec3_minmax(
-- 
2.43.0


From b721cc9e9d7e7a617532a22e3a528f262f61c0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:40 +0000
Subject: [PATCH 13/72] fix: cq_has_intersect: report junctions and distinguish
 overlaps, as documented

---
 src/hob3lop/op-sweep.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/hob3lop/op-sweep.c b/src/hob3lop/op-sweep.c
index 6a90ae7..569f8c7 100644
--- a/src/hob3lop/op-sweep.c
+++ b/src/hob3lop/op-sweep.c
@@ -1466,11 +1466,17 @@ extern int cq_has_intersect(
     for (cp_v_eachp(a, gon)) {
         for (cp_v_eachp(b, gon)) {
             cq_vec2if_t i;
+            int result = 1;
             switch (cq_line2if_intersect(&i, a, b)) {
             default:
                 break;
 
             case 1:
+            case 1|2:
+            case 1|4:
+            case 1|8:
+            case 1|16:
+                /* crossing, or an end point inside the other segment (junction) */
                 goto has;
 
             case -1:
@@ -1478,7 +1484,7 @@ extern int cq_has_intersect(
                 if (cq_vec2_right_cross3_z(&a->b, &a->a, &b->b) == 0) {
                     /* collinear */
 
-                    /* squares of distances */
+                    /* one coordinate is enough to order points on the line */
                     cq_dim_t a1, a2, b1, b2;
                     if (a->a.x == a->b.x) { /* vertical */
                         a1 = a->a.y;
@@ -1492,24 +1498,23 @@ extern int cq_has_intersect(
                         b1 = b->a.x;
                         b2 = b->b.x;
                     }
-                    if (a1 > a2) { CP_SWAP(&a1, &a2); }
-                    if (b1 > b2) { CP_SWAP(&b1, &b2); }
                     assert(a1 != a2);
                     assert(b1 != b2);
 
-                    if ((b1 < a1) && (a1 < b2)) {
+                    result = -1;
+                    if ((b1 < a1) != (b2 < a1) && (a1 != b1) && (a1 != b2)) {
                         i = CQ_VEC2IFI(a->a.x, a->a.y);
                         goto has;
                     }
-                    if ((b1 < a2) && (a2 < b2)) {
+                    if ((b1 < a2) != (b2 < a2) && (a2 != b1) && (a2 != b2)) {
                         i = CQ_VEC2IFI(a->b.x, a->b.y);
                         goto has;
                     }
-                    if ((a1 < b1) && (b1 < a2)) {
+                    if ((a1 < b1) != (a2 < b1) && (b1 != a1) && (b1 != a2)) {
                         i = CQ_VEC2IFI(b->a.x, b->a.y);
                         goto has;
                     }
-                    if ((a1 < b2) && (b2 < a2)) {
+                    if ((a1 < b2) != (a2 < b2) && (b2 != a1) && (b2 != a2)) {
                         i = CQ_VEC2IFI(b->b.x, b->b.y);
                         goto has;
                     }
@@ -1521,7 +1526,7 @@ extern int cq_has_intersect(
             if (ip) { *ip = i; }
             if (ap) { *ap = a; }
             if (bp) { *bp = b; }
-            return 1;
+            return result;
         }
     }
     return 0;
-- 
2.43.0


From cb567cb2f4d4519c93eb857503c6d7e6a876c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:52 +0000
Subject: [PATCH 14/72] fix: triangulation missed outline edges where more than
 two edges meet

---
 src/hob3lop/op-trianglify.c | 103 ++++++++----------------------------
 1 file changed, 23 insertions(+), 80 deletions(-)

diff --git a/src/hob3lop/op-trianglify.c b/src/hob3lop/op-trianglify.c
index c51a5cd..51bc2c4 100644
--- a/src/hob3lop/op-trianglify.c
+++ b/src/hob3lop/op-trianglify.c
@@ -65,85 +65,28 @@ static inline edge_t *tri_edge_new(
     return e;
 }
 
+/**
+ * Whether the step from 'p' to 'q', which are neighbours in the list in the
+ * given direction, runs along an edge of the outline.
+ *
+ * Several vertices in a row may be at the same point if more than two edges
+ * meet there, including ones that the scan line has not processed yet and ones
+ * that were disabled.  Therefore, this finds the edge via which the list gets
+ * to the point of 'q' and checks whether it starts at the point of 'p'.
+ */
 static bool edge_is_outline(
     vertex_t *p,
-    vertex_t *q)
+    vertex_t *q,
+    bool back)
 {
-    edge_t *e = edge_of(p);
-    if (e == edge_of(q)) {
-        return !e->inner;
-    }
-    vertex_t *w = vertex_eq_buddy(q);
-    if (w && (e == edge_of(w))) {
-        return !e->inner;
-    }
-
-    p = vertex_eq_buddy(p);
-    if (p) {
-        e = edge_of(p);
-        if (e == edge_of(q)) {
-            return !e->inner;
-        }
-        if (w && (e == edge_of(w))) {
-            return !e->inner;
-        }
-    }
-
-    return false;
-
-#if 0
-    /* this does not work because the 'LEFT' and 'RIGT' stuff does not reflect
-     * how the edges are oriented in the list */
-
-    /* try via p */
-    if (p->side == LEFT) {
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == LEFT) {
-            w = vertex_eq_buddy(w);
+    vertex_t *n = p;
+    do {
+        n = vertex_list_step_raw(n, back);
+        if (cq_vec2_eq(&n->vec2, &q->vec2)) {
+            return cq_vec2_eq(&other_end(n)->vec2, &p->vec2) && !edge_of(n)->inner;
         }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
-        }
-    }
-    else {
-        cq_assert(p->side == RIGT);
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == RIGT) {
-            w = vertex_eq_buddy(q);
-        }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
-        }
-    }
-
-    /* try via q */
-    CP_SWAP(&p, &q);
-    if (p->side == LEFT) {
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == LEFT) {
-            w = vertex_eq_buddy(q);
-        }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
-        }
-    }
-    else {
-        cq_assert(p->side == RIGT);
-        edge_t *e = edge_of(p);
-        vertex_t *w = q;
-        if (q->side == RIGT) {
-            w = vertex_eq_buddy(q);
-        }
-        if (w && (edge_of(w) == e)) {
-            return !e->inner;
-        }
-    }
-
+    } while (edge_of(n)->v_dis[n->side] || cq_vec2_eq(&n->vec2, &p->vec2));
     return false;
-#endif
 }
 
 static inline void flush_triangle_(
@@ -206,13 +149,13 @@ start_again:;
                 tri.p[0] = q->point_idx;
                 tri.p[1] = p->point_idx;
                 tri.p[2] = w->point_idx;
-                if (edge_is_outline(q, p)) {
+                if (edge_is_outline(p, q, back)) {
                     tri.flags |= CP_CSG2_TRI_OUTLINE_01;
                 }
-                if (edge_is_outline(p, w)) {
+                if (edge_is_outline(w, p, back)) {
                     tri.flags |= CP_CSG2_TRI_OUTLINE_12;
                 }
-                if (edge_is_outline(w, q)) {
+                if (edge_is_outline(q, w, back)) {
                     tri.flags |= CP_CSG2_TRI_OUTLINE_20;
                 }
             }
@@ -220,13 +163,13 @@ start_again:;
                 tri.p[0] = p->point_idx;
                 tri.p[1] = q->point_idx;
                 tri.p[2] = w->point_idx;
-                if (edge_is_outline(p, q)) {
+                if (edge_is_outline(p, q, back)) {
                     tri.flags |= CP_CSG2_TRI_OUTLINE_01;
                 }
-                if (edge_is_outline(q, w)) {
+                if (edge_is_outline(q, w, back)) {
                     tri.flags |= CP_CSG2_TRI_OUTLINE_12;
                 }
-                if (edge_is_outline(w, p)) {
+                if (edge_is_outline(w, p, back)) {
                     tri.flags |= CP_CSG2_TRI_OUTLINE_20;
                 }
             }
-- 
2.43.0


From c26aca008977e8d045417ad0e0521d5eff437a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 15/72] fix: report messages at the start of a line on that
 line

---
 src/hob3l/syn-msg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn-msg.c b/src/hob3l/syn-msg.c
index d5b62ba..5a1aaf5 100644
--- a/src/hob3l/syn-msg.c
+++ b/src/hob3l/syn-msg.c
@@ -17,7 +17,7 @@ static int cmp_line(
     /* We know that we can access the next array element,
      * because if we point to the last entry, we know that
      * key == elem[0] as the last line is empty. */
-    if (key > elem[1]) {
+    if (key >= elem[1]) {
         return +1;
     }
     return 0;
-- 
2.43.0


From 4ed92a6e29f68ca0f7d0a9ab8c81dcd3cbf860c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 16/72] fix: reject non-array multmatrix argument with an error
 message

---
 src/hob3l/scad.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 43078f4..f62ec9f 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -597,8 +597,8 @@ static bool get_mat4(
     /* This also accepts 3x3 matrices and 4x3 matrixes and will
      * add missing columns and rows from the unit matrix */
 
-    cp_syn_value_array_t const *a = cp_syn_cast(*a, v);
-    if ((v->type != CP_SYN_VALUE_ARRAY) ||
+    cp_syn_value_array_t const *a = cp_syn_try_cast(*a, v);
+    if ((a == NULL) ||
         (
             (a->value.size != 2) &&
             (a->value.size != 3) &&
-- 
2.43.0


From 35e2ea2420a7c5498ff6e2d7b0cf37e5b6d09880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:08 +0000
Subject: [PATCH 17/72] fix: evaluate the arguments after an ignored unknown
 parameter

---
 src/hob3l/scad.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index f62ec9f..baecfbe 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -741,8 +741,12 @@ static bool get_arg(
                     goto get;
                 }
             }
-            return msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
-                "Unknown parameter name '%s'.", a->key);
+            if (!msg(t, t->opt->err_unknown_param, a->value->loc, NULL,
+                "Unknown parameter name '%s'.", a->key))
+            {
+                return false;
+            }
+            continue;
         }
 
     get:
-- 
2.43.0


From 81f3655df50bc251b48f8546d630027bcb7c57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:23 +0000
Subject: [PATCH 18/72] fix: report an unsupported 'use' statement as an error
 instead of aborting

---
 src/hob3l/scad.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index baecfbe..94725ad 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1598,11 +1598,11 @@ static bool v_scad_from_syn_stmt_item(
 }
 
 static bool v_scad_from_syn_stmt_use(
-    ctxt_t *t CP_UNUSED,
+    ctxt_t *t,
     cp_v_scad_p_t *result CP_UNUSED,
-    cp_syn_stmt_use_t *f CP_UNUSED)
+    cp_syn_stmt_use_t *f)
 {
-    CP_NYI("`use <...>`");
+    return msg_fail(t, f->loc, NULL, "Not yet implemented: `use <...>`");
 }
 
 static bool v_scad_from_syn_stmt(
-- 
2.43.0


From fb6990cd3d9208711dfc318cb3fa3784bb4455f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 19/72] fix: reject NUL characters in the input instead of
 ignoring the rest of the file

---
 src/hob3l/syn.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 3ba8d31..d4f491c 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -303,6 +303,14 @@ static void tok_next_aux2(parse_t *p)
         p->c.tok.type = T_ERROR;
         return;
     }
+    if ((p->c.lex.cur == '\0') && (p->c.lex.string < p->c.lex.end)) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg,
+                "NUL characters are not supported.\n");
+        }
+        p->c.tok.type = T_ERROR;
+        return;
+    }
     p->c.tok.type = p->c.lex.cur & 127;
     lex_next(p);
 }
-- 
2.43.0


From a00d647623c50f6b90a6dd12a522d1da6a7ee9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 20/72] fix: limit the nesting depth of the input instead of
 overflowing the stack

---
 src/hob3l/syn.c | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index d4f491c..59871c8 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -55,8 +55,14 @@ typedef struct {
     cp_err_t *err;
     cp_syn_input_t *input;
     parse_ctxt_t c;
+    unsigned depth;
 } parse_t;
 
+/**
+ * Maximum nesting depth of statements and values: the input is
+ * processed recursively, so this must be limited. */
+#define MAX_DEPTH 2000
+
 static void tok_next(parse_t *p);
 
 static inline parse_ctxt_t begin_file(
@@ -501,6 +507,28 @@ static bool parse_value(
     parse_t *p,
     cp_syn_value_t **r);
 
+static bool enter(
+    parse_t *p)
+{
+    if (p->depth >= MAX_DEPTH) {
+        if (!have_err_msg(p)) {
+            cp_vchar_printf(&p->err->msg,
+                "Nesting is too deep: more than %u levels.\n", MAX_DEPTH);
+        }
+        return false;
+    }
+    p->depth++;
+    return true;
+}
+
+static bool leave(
+    parse_t *p)
+{
+    assert(p->depth > 0);
+    p->depth--;
+    return true;
+}
+
 static bool parse_id(
     parse_t *p,
     char const **string)
@@ -676,7 +704,10 @@ static bool parse_value(
         return parse_new_id(p, r);
 
     case '[':
-        return parse_new_range_or_array(p, r);
+        return
+            enter(p) &&
+            parse_new_range_or_array(p, r) &&
+            leave(p);
 
     default:
         if (!have_err_msg(p)) {
@@ -884,7 +915,10 @@ static bool parse_item_push_stmt_item(
     }
     cp_syn_stmt_item_t *f = cp_syn_new(*f, p->c.tok.string);
     cp_v_push(r, f);
-    return parse_stmt_item(p, f);
+    return
+        enter(p) &&
+        parse_stmt_item(p, f) &&
+        leave(p);
 }
 
 static bool parse_item_push_stmt(
-- 
2.43.0


From 069cd4f5df0d8847604b18a333040ca144e09574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:12 +0000
Subject: [PATCH 21/72] fix: allow 'include' at the top level of a file

---
 src/hob3l/syn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 59871c8..87fb12f 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -960,7 +960,7 @@ static bool parse_stmt_list(
             }
             break;}
         default:
-            if (p->c.tok.type & _T_KEY) {
+            if (!looking_at_stmt_item(p)) {
                 return true;
             }
             if (!parse_item_push_stmt(p, r)) {
-- 
2.43.0


From b553de294a34df0c705d5b69847281ba3327a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 22/72] fix: report unsupported 'surface' as an error instead
 of aborting

---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index e108091..a04beab 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -999,7 +999,7 @@ static bool csg3_from_surface(
 
     (void)r;
     (void)m;
-    CP_NYI("surface");
+    (void)msg(c, CP_ERR_FAIL, s->loc, NULL, "Not yet implemented: surface.");
     return false;
 }
 
-- 
2.43.0


From a393150a86a5a02203a00767a04d1d345bc1eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 23/72] fix: accept matrices with two columns in multmatrix as
 documented

---
 src/hob3l/scad.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 94725ad..29942d7 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -612,6 +612,12 @@ static bool get_mat4(
     for (cp_size_each(y, a->value.size)) {
         cp_syn_value_t const *l = cp_v_nth(&a->value, y);
         cp_syn_value_array_t const *la = cp_syn_try_cast(*a, l);
+        if ((la != NULL) && (la->value.size == 2)) {
+            if (!get_vec2(&r->row[y].b.b, t, l)) {
+                return false;
+            }
+        }
+        else
         if ((la != NULL) && (la->value.size == 3)) {
             if (!get_vec3(&r->row[y].b, t, l)) {
                 return false;
-- 
2.43.0


From c920ea96300949eb6469fd03c54d19e0a7f94340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 24/72] fix: honour --unknown-functor for unknown functors

---
 src/hob3l/scad.c | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 29942d7..9436f41 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1581,6 +1581,33 @@ static bool projection_from_item(
 
 #include "scad-cmd.inc"
 
+/**
+ * Whether this functor is known to be SCAD, but is not supported
+ */
+static bool is_unsupported(
+    char const *id)
+{
+    static char const *const unsupported[] = {
+        "assert",
+        "assign",
+        "children",
+        "echo",
+        "for",
+        "if",
+        "intersection_for",
+        "let",
+        "minkowski",
+        "offset",
+        "resize",
+    };
+    for (cp_arr_each(i, unsupported)) {
+        if (strequ(id, unsupported[i])) {
+            return true;
+        }
+    }
+    return false;
+}
+
 static bool v_scad_from_syn_stmt_item(
     ctxt_t *t,
     cp_v_scad_p_t *result,
@@ -1588,8 +1615,12 @@ static bool v_scad_from_syn_stmt_item(
 {
     cmd_value_t const *c = cmd_find(f->functor, strlen(f->functor));
     if (c == NULL) {
-        return msg(t, t->opt->err_unsupported_functor, f->loc, NULL,
-            "Unsupported functor '%s'.", f->functor);
+        if (is_unsupported(f->functor)) {
+            return msg(t, t->opt->err_unsupported_functor, f->loc, NULL,
+                "Unsupported functor '%s'.", f->functor);
+        }
+        return msg(t, t->opt->err_unknown_functor, f->loc, NULL,
+            "Unknown functor '%s'.", f->functor);
     }
     assert(c->type != 0);
 
-- 
2.43.0


From 63a535ce024cac83521fbdcd5f47589cc6a5ae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 25/72] fix: do not loop endlessly at the end of file inside an
 XML comment or tag name

---
 src/hob3l/xml-parse.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 9a60ef5..949d34f 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -177,7 +177,7 @@ static bool maybe_tag_begin(unsigned c)
 
 static bool is_tag_char(unsigned c)
 {
-    if (cp_xml_is_space(c)) {
+    if (cp_xml_is_space(c) || (c == 0)) {
         return false;
     }
     if (c > 0x7f) {
@@ -443,6 +443,9 @@ static bool skip_comment(
             TRY(expect(p, "-->"));
             return true;
         }
+        if (p->cur == 0) {
+            ERR(p, p->loc, "Unexpected end of file inside comment.\n");
+        }
         TRY(lex_next(p));
     }
 }
-- 
2.43.0


From 7fc632aaa11590a16c01c71c265cd31b47d02739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 26/72] fix: reject empty XML names instead of looping
 endlessly

---
 src/hob3l/xml-parse.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 949d34f..6ae54b4 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -14,8 +14,6 @@ typedef struct {
     char *loc;
     char *str_next;
     char *str_end;
-
-    char *tok_start;
 } parse_t;
 
 typedef struct ctxt ctxt_t;
@@ -203,8 +201,8 @@ static char *parse_tag(
             TRY(lex_next(p));
         }
     }
-    if (p->tok_start == p->loc) {
-        ERR(p, p->tok_start, "Expected a tag name.\n");
+    if (tok == p->loc) {
+        ERR(p, tok, "Expected a tag name.\n");
     }
 
     /* NUL terminate */
-- 
2.43.0


From f642cdf20e65f1f350d69696845fb4f9675e0d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 27/72] fix: reject XML namespace declarations without value
 instead of crashing

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 6ae54b4..4923559 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -419,6 +419,12 @@ static bool parse_attr_list(
         }
         assert(attr->next == NULL);
 
+        if ((attr->child == NULL) &&
+            strequ(attr->ns_prefix ? attr->ns_prefix : attr->data, "xmlns"))
+        {
+            ERR(p, attr->loc, "Expected a value for 'xmlns'.\n");
+        }
+
         if ((attr->ns_prefix != NULL) && strequ(attr->ns_prefix, "xmlns")) {
             attr->next = c->ns_map;
             c->ns_map = attr;
-- 
2.43.0


From cae8e8e97cf311c15704f31464cc17d66d6a4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 28/72] fix: reject empty, zero, and out of range XML character
 references

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 4923559..423f151 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -252,8 +252,14 @@ static bool read_num(unsigned *np, parse_t *p, unsigned base)
             break;
         }
         n = (n * base) + val;
+        if (n > 0x10ffff) {
+            ERR(p, p->loc, "Character reference out of range.\n");
+        }
         TRY(lex_next(p));
     }
+    if (n == 0) {
+        ERR(p, p->loc, "Illegal character reference.\n");
+    }
     *np = n;
     return true;
 }
-- 
2.43.0


From 8ea43b960f467dcb2e7b3b94a889e6d368aa71e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 29/72] fix: accept the predefined namespace prefix 'xml'

---
 src/hob3l/xml-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 423f151..c136f08 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -549,6 +549,12 @@ static bool find_ns(
         }
     }
 
+    /* this prefix is predefined and need not be declared */
+    if (strequ(ns_prefix, "xml")) {
+        *nsp = "http://www.w3.org/XML/1998/namespace";
+        return true;
+    }
+
     ERR(p, ns_prefix, "Namespace prefix '%s' not found.\n", ns_prefix);
     return true;
 }
-- 
2.43.0


From aa83e84022dc248cabeaf5c4d61d32e9311d32b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 30/72] fix: allow white space around '=' in XML attributes

---
 src/hob3l/xml-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index c136f08..4780178 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -389,10 +389,12 @@ static bool parse_attr(
     r->ns_prefix = nsp;
 
     /* if no = follows, then we assume x="x" */
+    TRY(skip_space(p));
     if (p->cur != '=') {
         return true;
     }
     TRY(lex_next(p));
+    TRY(skip_space(p));
 
     /* expect " or ' */
     unsigned delim = p->cur;
-- 
2.43.0


From 68ee7ebe3709635c8b7daf73435de3216d22fa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 31/72] fix: limit the nesting depth of XML elements instead of
 overflowing the stack

---
 src/hob3l/xml-parse.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 4780178..3e503a7 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -5,10 +5,16 @@
 #include <hob3lbase/utf8.h>
 #include <hob3l/xml-parse.h>
 
+/**
+ * Maximum nesting depth of elements: the input is processed
+ * recursively, so this must be limited. */
+#define MAX_DEPTH 2000
+
 typedef struct {
     cp_pool_t *tmp;
     cp_err_t *err;
     unsigned opt;
+    unsigned depth;
 
     unsigned cur;
     char *loc;
@@ -605,7 +611,12 @@ static bool parse_elem(
         return expect(p, "/>");
     }
     TRY(expect(p, ">"));
+    if (p->depth >= MAX_DEPTH) {
+        ERR(p, loc, "Nesting is too deep: more than %u levels.\n", MAX_DEPTH);
+    }
+    p->depth++;
     TRY(parse_content_list(p, c, nsp, tag));
+    p->depth--;
     if (p->opt & CP_XML_OPT_CHOMP) {
         cp_xml_chomp(r);
     }
-- 
2.43.0


From 8c8d3128edce680a0cf430433d7a8c4ce30efe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 32/72] fix: reject NUL characters in XML files instead of
 ignoring the rest

---
 src/hob3l/xml-parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 3e503a7..ca85ecd 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -664,6 +664,9 @@ static bool parse_doc(
     /* parse like element body */
     cp_xml_t **bodyp = c->bottom;
     TRY(parse_content_list(p, c, NULL, NULL));
+    if (p->loc < p->str_end) {
+        ERR(p, p->loc, "Unexpected NUL character.\n");
+    }
     cp_xml_chomp(doc);
 
     /* check structure */
-- 
2.43.0


From e80bfa1d9349aadb5397c1b06a9684472ade021f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:05 +0000
Subject: [PATCH 33/72] fix: accept XML end tags with non-ASCII names

---
 src/hob3l/xml-parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index ca85ecd..33a8dfb 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -232,8 +232,8 @@ static bool expect(
 {
     cp_loc_t loc = p->loc;
     char const *s_orig = s;
-    for (; *s; s++) {
-        if (p->cur != (unsigned char)*s) {
+    while (*s) {
+        if (p->cur != cp_utf8_take(&s)) {
             ERR(p, loc, "Expected '%s'", s_orig);
         }
         TRY(lex_next(p));
-- 
2.43.0


From 8923d32927e2eed37557c24a93fb46f5a4fc01e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 34/72] fix: do not skip the first facet of a text STL file
 without solid name

---
 src/hob3l/stl-parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index dae61d1..144095e 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -180,14 +180,15 @@ static void tok_next_line(parse_t *p)
     if (p->tok_type == T_ERROR) {
         return;
     }
-    lex_next(p);
 
     /* Note that p->tok_string might point to '\0'.  It is needed for a
      * location pointer nevertheless. */
     p->tok_string = p->lex_string;
     p->tok_loc = p->lex_string;
 
-    while ((*p->lex_string != '\n') && (*p->lex_string != '\0')) {
+    /* check lex_cur, not *lex_string: the latter is overwritten by the
+     * terminator of the previous token. */
+    while ((p->lex_cur != '\n') && (p->lex_cur != '\0')) {
         lex_next(p);
     }
     p->tok_type = T_STRING;
-- 
2.43.0


From 9fe8ae11e138f90053977d567bd70a851d36059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 35/72] fix: do not ignore the line following 'endsolid' in
 text STL files

---
 src/hob3l/stl-parse.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 144095e..3a95ee0 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -443,8 +443,8 @@ static bool parse_solid(
             return false;
         }
     }
-    if (!expect_err(p, K_ENDSOLID)) {
-        return false;
+    if (p->tok_type != K_ENDSOLID) {
+        return expect_err(p, K_ENDSOLID);
     }
     tok_next_line(p);
     tok_next(p);
-- 
2.43.0


From 871f02a6ca9630acf84253e5cc9ee206ea6394c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 36/72] fix: do not ignore what follows a NUL character in text
 STL files

---
 src/hob3l/stl-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 3a95ee0..472a8d2 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -480,7 +480,7 @@ static bool parse_text(
         }
         return false;
     }
-    if (p->tok_type != T_EOF) {
+    if ((p->tok_type != T_EOF) || (p->tok_loc < p->lex_end)) {
         p->err->loc = p->tok_loc;
         cp_vchar_printf(&p->err->msg, "Garbage after 'endsolid'.\n");
         return false;
-- 
2.43.0


From 01bb08785c3d9e7ebfdb724320b550c500c7e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 37/72] fix: reject malformed and infinite numbers in text STL
 files

---
 src/hob3l/stl-parse.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 472a8d2..8be630f 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -334,7 +334,14 @@ static bool parse_float(
     parse_t *p,
     cp_f_t *v)
 {
-    *v = strtod(p->tok_string, NULL);
+    char *end = NULL;
+    *v = strtod(p->tok_string, &end);
+    if ((p->tok_type == T_FLOAT) &&
+        ((end == p->tok_string) || (*end != '\0') || !isfinite(*v)))
+    {
+        cp_vchar_printf(&p->err->msg, "Malformed number '%s'.\n", p->tok_string);
+        return false;
+    }
     return expect_err(p, T_FLOAT);
 }
 
-- 
2.43.0


From 19f0ebdcc4f853b46b6d3223645f7b56ac599b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 38/72] fix: reject infinite and NaN coordinates in binary STL
 files

---
 src/hob3l/stl-parse.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 8be630f..4e21712 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -552,6 +552,11 @@ static bool bin_f(parse_t *p, cp_f_t *x)
     if (!bin_f32(p, &v)) {
         return false;
     }
+    if (!isfinite(v)) {
+        p->err->loc = p->lex_string - 4;
+        cp_vchar_printf(&p->err->msg, "Coordinate is not a finite number.\n");
+        return false;
+    }
     *x = v;
     return true;
 }
@@ -587,10 +592,11 @@ static bool bin_facet(parse_t *p)
 {
     cp_loc_t loc = p->lex_string;
 
-    cp_vec3_t normal;
-    if (!bin_vec3(p, &normal)) {
+    /* the normal is ignored, so it may be anything */
+    if (!bin_skip(p, 3*4)) {
         return false;
     }
+    cp_vec3_t normal = {0};
 
     cp_vec3_dict_node_t *v[3];
     cp_loc_t vloc[3];
-- 
2.43.0


From ce541e0102c29f55a38b152ba6af0339a4544de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 39/72] fix: reject binary STL files with fewer facets
 announced than present

---
 src/hob3l/stl-parse.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/stl-parse.c b/src/hob3l/stl-parse.c
index 4e21712..915c8a8 100644
--- a/src/hob3l/stl-parse.c
+++ b/src/hob3l/stl-parse.c
@@ -631,6 +631,11 @@ static bool parse_bin(
             return false;
         }
     }
+    if (p->lex_string != p->lex_end) {
+        p->err->loc = p->lex_string;
+        cp_vchar_printf(&p->err->msg, "STL binary file is too long for %u facets.\n", triangle_cnt);
+        return false;
+    }
 
     make_solid(p);
     return true;
@@ -667,7 +672,9 @@ extern bool cp_stl_parse(
         return parse_text(&p);
     }
 
-    if (((file->content.size - 84) % ((4*4*3)+2)) == 0) {
+    if ((file->content.size >= 84) &&
+        ((file->content.size - 84) % ((4*4*3)+2)) == 0)
+    {
         return parse_bin(&p);
     }
 
-- 
2.43.0


From a7b1c268164b582e09a83872c1a944045b03b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 40/72] fix: ignore SVG shapes without any point instead of
 aborting

---
 src/hob3l/svg-parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index c968d0a..29c8d9e 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -346,6 +346,12 @@ static void path_fini(
     cp_loc_t loc)
 {
     path_end(p, loc);
+
+    /* nothing was drawn */
+    if (p->poly == NULL) {
+        return;
+    }
+
     path_uniquify(p);
 
     if (p->poly->point.size < 3) {
-- 
2.43.0


From aceda2e969c6148d2f9c47b45a006b623ed597e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 41/72] fix: accept signed exponents in SVG numbers

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 29c8d9e..5beeff8 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -923,7 +923,7 @@ static char const *s_str_float(
     if ((*s == 'e') || (*s == 'E')) {
         char const *t = s;
         t++;
-        (void)(s_expect_raw(&s, "-") || s_expect_raw(&s, "+"));
+        (void)(s_expect_raw(&t, "-") || s_expect_raw(&t, "+"));
         bool have_exp = false;
         while ((*t >= '0') && (*t <= '9')) {
             have_exp = true;
-- 
2.43.0


From d98b1d8cdf02ce035e25ba2d6de513a19b6fa90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 42/72] fix: do not ignore an SVG y coordinate if there is no x
 coordinate

---
 src/hob3l/svg-parse.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 5beeff8..7479582 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1111,9 +1111,9 @@ static bool s_attr_coord(
 {
     *xp = 0.0;
     *yp = 0.0;
-    return
-        s_attr_dim(xp, xml, namex, c->width,  1) &&
-        s_attr_dim(yp, xml, namey, c->height, 1);
+    bool have_x = s_attr_dim(xp, xml, namex, c->width,  1);
+    bool have_y = s_attr_dim(yp, xml, namey, c->height, 1);
+    return have_x && have_y;
 }
 
 static bool s_attr_size(
-- 
2.43.0


From b14d7b357555a6b6adb7ffd27ac0029eb7e4cb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 43/72] fix: find SVG layers that have no transform

---
 src/hob3l/svg-parse.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 7479582..76e41cf 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1456,6 +1456,16 @@ static void process_std_attr(
     ctxt_t const *p,
     cp_xml_t *xml)
 {
+    /* compare layer with `id` attribute in SVG, like InkScape stores it. */
+    if ((*c)->layer != NULL) {
+        char const *id = s_attr_str(xml, "id");
+        if (strequ0((*c)->layer, id)) {
+            set_local(c, n);
+            /* setting 'layer' to NULL means 'active' */
+            n->layer = NULL;
+        }
+    }
+
     /* process transform commands */
     char const *s = s_attr_str(xml, "transform");
     if (s == NULL) {
@@ -1468,16 +1478,6 @@ static void process_std_attr(
         }
         s_sep(&s, COMMA);
     }
-
-    /* compare layer with `id` attribute in SVG, like InkScape stores it. */
-    if ((*c)->layer != NULL) {
-        char const *id = s_attr_str(xml, "id");
-        if (strequ0((*c)->layer, id)) {
-            set_local(c, n);
-            /* setting 'layer' to NULL means 'active' */
-            n->layer = NULL;
-        }
-    }
 }
 
 typedef bool (*callback_t)(
-- 
2.43.0


From 169e6dd45a3c1cd17f88098d26fd4e277b72e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 44/72] fix: reject SVG arc flags other than 0 and 1

---
 src/hob3l/svg-parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 76e41cf..4932154 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -968,7 +968,7 @@ static bool s_bool(
         *rp = true;
         return true;
     }
-    return true;
+    return false;
 }
 
 static inline bool s_coord(
-- 
2.43.0


From 67f43c9be8401a2c78758dff824f8a9df488b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 45/72] fix: closing an empty SVG subpath stays at its start
 point

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 4932154..662806c 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -467,6 +467,8 @@ static void path_move(
     }
     path_end(p, loc);
     path_cur(p, loc, x, y, 0,0,0);
+    p->init_x = x;
+    p->init_y = y;
 }
 
 static inline void path_quad_abs(
-- 
2.43.0


From c166b710fa1c24938ff787a4247d4b49eab38c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:09 +0000
Subject: [PATCH 46/72] fix: preserveAspectRatio of SVG was applied to 'none'
 instead of to alignments

---
 src/hob3l/svg-parse.c | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 662806c..867ff74 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -1031,10 +1031,12 @@ static void svg_xform(
 
     s_expect(&pas, "defer");
 
-    /* 0 = min, 0.5 = mid, 1 = max, <0 = none */
+    /* 0 = min, 0.5 = mid (default), 1 = max */
     double align_x = match_align(pas, "xMin", "xMid", "xMax");
     double align_y = match_align(pas, "YMin", "YMid", "YMax");
-    bool do_align = (align_x < 0) && (align_y < 0);
+    if (align_x < 0) { align_x = 0.5; }
+    if (align_y < 0) { align_y = 0.5; }
+    bool do_align = (strstr(pas, "none") == NULL);
     bool slice = (strstr(pas, "slice") != NULL);
 
     double scale_x = cp_div0(ew, vw);
@@ -1059,8 +1061,8 @@ static void svg_xform(
     cp_mat2wi_scale(m, scale_x, scale_y);
     m->n.w.x = xlat_x;
     m->n.w.y = xlat_y;
-    m->i.w.x = cp_div0(xlat_x, scale_x);
-    m->i.w.y = cp_div0(xlat_y, scale_y);
+    m->i.w.x = -cp_div0(xlat_x, scale_x);
+    m->i.w.y = -cp_div0(xlat_y, scale_y);
 }
 
 static char const *s_attr_str(
@@ -1566,6 +1568,15 @@ static bool csg2_from_svg(
             &CP_MAT2WI_SCALE1(have_size ? U_PX_MM : U_DPI_MM(c0->dpi)));
     }
 
+    /* At top level, have a coordinate shift to put the SVG in
+     * positive coordinates, or, if requested, to center it (we're not
+     * clipping, so we can do it late (i.e., only now)) */
+    if (c0->toplevel && have_viewBox) {
+        double sw = have_size ? ew : vw;
+        double sh = have_size ? eh : vh;
+        xform_apply(&c, &c1, &CP_MAT2WI_XLAT(c0->center ? -sw/2 : 0, c0->center ? -sh/2 : -sh));
+    }
+
     /* scale only if we have all params: we have no external size limit */
     if (have_size && have_viewBox) {
         c1.width = vw;
@@ -1577,25 +1588,6 @@ static bool csg2_from_svg(
         xform_apply(&c, &c1, &m1);
     }
 
-    /* apply centering, if requested and possible (we're not clipping, so we
-     * can do it late (i.e., only now)*/
-    if (c0->center) {
-        if (have_ew) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(-vw/2, 0));
-        }
-        if (have_eh) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, +vh/2));
-        }
-    }
-
-    /* At top level, have a coordinate shift to put the SVG in
-     * positive coordinates */
-    if (c0->toplevel) {
-        if (have_viewBox) {
-            xform_apply(&c, &c1, &CP_MAT2WI_XLAT(0, -vh));
-        }
-    }
-
     /* recurse */
     return callback(r, p, c, x);
 }
-- 
2.43.0


From 17037b321d40ebede768c260cadd73b98af3a0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 47/72] fix: accept an XML comment directly before an end tag

---
 src/hob3l/xml-parse.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/xml-parse.c b/src/hob3l/xml-parse.c
index 33a8dfb..f90ec1f 100644
--- a/src/hob3l/xml-parse.c
+++ b/src/hob3l/xml-parse.c
@@ -475,6 +475,8 @@ static bool parse_elem(
 
 /**
  * This does not handle </ tokens: they cause errors here.
+ *
+ * This leaves *rp==NULL for a comment and at EOF.
  */
 static bool parse_content(
     cp_xml_t **rp,
@@ -483,7 +485,6 @@ static bool parse_content(
 {
     *rp = NULL;
 
-again:
     /* EOF is OK, leaves *rp==NULL */
     if (p->cur == 0) {
         return true;
@@ -495,7 +496,7 @@ again:
         if  (p->cur == '!') {
             TRY(expect(p, "!--"));
             TRY(skip_comment(p));
-            goto again;
+            return true;
         }
 
         /* element */
@@ -529,6 +530,10 @@ static bool parse_content_list(
         cp_xml_t *cont = NULL;
         TRY(parse_content(&cont, p, c));
         if (cont == NULL) {
+            if (p->cur != 0) {
+                /* a comment: may be followed by an end tag */
+                continue;
+            }
             if (tag != NULL) {
                 ERR(p, p->loc, "Unexpected end of file, expected end tag");
             }
-- 
2.43.0


From fd356089924a89e506ee6f4cc1faf77af2330175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 48/72] fix: SVG smooth curves after an empty line or arc do
 not reflect the previous control point

---
 src/hob3l/svg-parse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hob3l/svg-parse.c b/src/hob3l/svg-parse.c
index 867ff74..a4e1197 100644
--- a/src/hob3l/svg-parse.c
+++ b/src/hob3l/svg-parse.c
@@ -409,6 +409,7 @@ static inline void path_line_abs(
     double y)
 {
     if (cp_eq(p->cur_x, x) && cp_eq(p->cur_y, y)) {
+        p->prev_cmd = 0;
         return;
     }
     path_start(p, loc);
@@ -672,6 +673,7 @@ static inline void path_arc_abs(
 
     /* 9.5.1 */
     if (cp_eq(p->cur_x, x2) && cp_eq(p->cur_y, y2)) {
+        p->prev_cmd = 0;
         return;
     }
 
-- 
2.43.0


From 5e8ee297427e90080b1d071fd1b4b5404ca77aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 49/72] fix: inverting a matrix with inverse into another one
 computed the determinant from the uninitialised result

---
 script/mkmat               |  2 +-
 src/hob3lmat/mat_gen_ext.c | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index 610e5cb..deb168a 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -1443,7 +1443,7 @@ sub gen_inv_mati($$$)
     $s.= "        r->n = a->i;\n";
     $s.= "        r->i = a->n;\n";
     $s.= "    }\n";
-    $s.= "    r->d = X_div0(1, r->d);\n";
+    $s.= "    r->d = X_div0(1, a->d);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index 012f1d9..c1264ef 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -1142,7 +1142,7 @@ extern void cp_mat2i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat2wi_inv(
@@ -1155,7 +1155,7 @@ extern void cp_mat2wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3i_inv(
@@ -1168,7 +1168,7 @@ extern void cp_mat3i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat3wi_inv(
@@ -1181,7 +1181,7 @@ extern void cp_mat3wi_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
 
 extern void cp_mat4i_inv(
@@ -1194,5 +1194,5 @@ extern void cp_mat4i_inv(
         r->n = a->i;
         r->i = a->n;
     }
-    r->d = cp_div0(1, r->d);
+    r->d = cp_div0(1, a->d);
 }
-- 
2.43.0


From 5c257977cb6dcee4d511bc3d46b0b1da01564704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 50/72] fix: rotating the negative Z axis into Z was a mirror
 instead of a rotation

---
 src/hob3lmat/algo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hob3lmat/algo.c b/src/hob3lmat/algo.c
index af3b6a8..32dc859 100644
--- a/src/hob3lmat/algo.c
+++ b/src/hob3lmat/algo.c
@@ -153,8 +153,9 @@ extern void cp_dim3_rot_unit_into_z(
     double y = u->y;
     double z = u->z;
     if (cp_eq(x,0) && cp_eq(y,0)) {
+        /* no rotation, or half a turn around the X axis */
         *r0 = CP_VEC3(1, 0, 0);
-        *r1 = CP_VEC3(0, 1, 0);
+        *r1 = CP_VEC3(0, z, 0);
         *r2 = CP_VEC3(0, 0, z);
         return;
     }
-- 
2.43.0


From 601c24e60111a39abaf4b41dc421066115a2f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:48 +0000
Subject: [PATCH 51/72] fix: cp_mat3wi_xform_into_zx left the determinant
 uninitialised

---
 include/hob3lmat/algo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hob3lmat/algo.h b/include/hob3lmat/algo.h
index b158ba6..cd9a41a 100644
--- a/include/hob3lmat/algo.h
+++ b/include/hob3lmat/algo.h
@@ -687,6 +687,7 @@ static inline bool cp_mat3wi_xform_into_zx(
     cp_vec3_t const *a,
     cp_vec3_t const *b)
 {
+    m->d = 1;
     return cp_mat3w_xform_into_zx_2(&m->n, &m->i, o, a, b);
 }
 
-- 
2.43.0


From 91ca5ae40605fb29fced5ecb10c5d3b4b2f89aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:02 +0000
Subject: [PATCH 52/72] fix: cp_mat3_is_rect_rot had its decision branches
 swapped

---
 script/mkrotmat           |  6 +--
 src/hob3lmat/mat_is_rot.c | 92 +++++++++++++++++++--------------------
 2 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/script/mkrotmat b/script/mkrotmat
index 5de6793..533d931 100755
--- a/script/mkrotmat
+++ b/script/mkrotmat
@@ -9,7 +9,7 @@ sub all_0($$@)
 {
     my ($x,$y,@a) = @_;
     for my $a (@a) {
-        if ($a->[$x][$y]) {
+        if ($a->[$y][$x]) {
             return 0;
         }
     }
@@ -108,9 +108,9 @@ sub write_test($$@)
 
     my ($x,$y) = @$cb;
     print ind($i)."if (!".is0($x,$y).") {\n";
-    write_test($i+1, $cs2, @$b0);
+    write_test($i+1, $cs2, @$b1);
     print ind($i)."}\n";
-    write_test($i, $cs2, @$b1);
+    write_test($i, $cs2, @$b0);
 }
 
 print
diff --git a/src/hob3lmat/mat_is_rot.c b/src/hob3lmat/mat_is_rot.c
index e473dcc..6a29c84 100644
--- a/src/hob3lmat/mat_is_rot.c
+++ b/src/hob3lmat/mat_is_rot.c
@@ -11,67 +11,67 @@ extern bool cp_mat3_is_rect_rot(
      *   0 ? 0   0 0 ?   ? 0 0   0 0 ?   ? 0 0   0 ? 0
      *   0 0 ?   0 ? 0   0 0 ?   ? 0 0   0 ? 0   ? 0 0  */
     if (!cp_eq(m->m[0][0], 0)) {
-        /*   O ? 0   O ? 0   O 0 ?   O 0 ?
-         *   ? 0 0   0 0 ?   ? 0 0   0 ? 0
-         *   0 0 ?   ? 0 0   0 ? 0   ? 0 0  */
-        if (!cp_eq(m->m[1][0], 0)) {
-            /*   O ? 0   O 0 ?
-             *   O 0 ?   O ? 0
-             *   ? 0 0   ? 0 0  */
-            if (!cp_eq(m->m[0][1], 0)) { return false; }
-            if (!cp_eq(m->m[1][2], 0)) { return false; }
-            if (!cp_eq(m->m[2][2], 0)) { return false; }
-            if (!cp_eq(m->m[1][1], 0)) {
-                /*   O X 0
-                 *   O O X
-                 *   ? 0 O  */
-                if (!cp_eq(m->m[2][0], 0)) { return false; }
-                return true;
-            }
-            /*   O O ?
-             *   O X O
-             *   ? 0 O  */
+        /*   X 0 0   X 0 0
+         *   0 ? 0   0 0 ?
+         *   0 0 ?   0 ? 0  */
+        if (!cp_eq(m->m[1][0], 0)) { return false; }
+        if (!cp_eq(m->m[2][0], 0)) { return false; }
+        if (!cp_eq(m->m[0][1], 0)) { return false; }
+        if (!cp_eq(m->m[0][2], 0)) { return false; }
+        if (!cp_eq(m->m[1][1], 0)) {
+            /*   X O O
+             *   O X 0
+             *   O 0 ?  */
             if (!cp_eq(m->m[2][1], 0)) { return false; }
+            if (!cp_eq(m->m[1][2], 0)) { return false; }
             return true;
         }
+        /*   X O O
+         *   O O ?
+         *   O ? 0  */
+        if (!cp_eq(m->m[2][2], 0)) { return false; }
+        return true;
+    }
+    /*   O ? 0   O ? 0   O 0 ?   O 0 ?
+     *   ? 0 0   0 0 ?   ? 0 0   0 ? 0
+     *   0 0 ?   ? 0 0   0 ? 0   ? 0 0  */
+    if (!cp_eq(m->m[1][0], 0)) {
         /*   O ? 0   O 0 ?
          *   X 0 0   X 0 0
          *   0 0 ?   0 ? 0  */
+        if (!cp_eq(m->m[2][0], 0)) { return false; }
         if (!cp_eq(m->m[1][1], 0)) { return false; }
-        if (!cp_eq(m->m[2][1], 0)) { return false; }
-        if (!cp_eq(m->m[0][2], 0)) { return false; }
+        if (!cp_eq(m->m[1][2], 0)) { return false; }
         if (!cp_eq(m->m[0][1], 0)) {
-            /*   O O X
-             *   X O 0
-             *   0 X 0  */
-            if (!cp_eq(m->m[2][2], 0)) { return false; }
+            /*   O X 0
+             *   X O O
+             *   O 0 ?  */
+            if (!cp_eq(m->m[2][1], 0)) { return false; }
+            if (!cp_eq(m->m[0][2], 0)) { return false; }
             return true;
         }
-        /*   O X O
-         *   X O 0
-         *   0 O ?  */
-        if (!cp_eq(m->m[2][0], 0)) { return false; }
-        if (!cp_eq(m->m[1][2], 0)) { return false; }
-        return true;
-    }
-    /*   X 0 0   X 0 0
-     *   0 ? 0   0 0 ?
-     *   0 0 ?   0 ? 0  */
-    if (!cp_eq(m->m[1][0], 0)) { return false; }
-    if (!cp_eq(m->m[2][0], 0)) { return false; }
-    if (!cp_eq(m->m[0][1], 0)) { return false; }
-    if (!cp_eq(m->m[0][2], 0)) { return false; }
-    if (!cp_eq(m->m[1][1], 0)) {
-        /*   X O O
-         *   O O ?
+        /*   O O ?
+         *   X O O
          *   O ? 0  */
         if (!cp_eq(m->m[2][2], 0)) { return false; }
         return true;
     }
-    /*   X O O
-     *   O X 0
-     *   O 0 ?  */
+    /*   O ? 0   O 0 ?
+     *   O 0 ?   O ? 0
+     *   ? 0 0   ? 0 0  */
     if (!cp_eq(m->m[2][1], 0)) { return false; }
+    if (!cp_eq(m->m[2][2], 0)) { return false; }
+    if (!cp_eq(m->m[0][1], 0)) {
+        /*   O X 0
+         *   O 0 ?
+         *   ? O O  */
+        if (!cp_eq(m->m[1][1], 0)) { return false; }
+        if (!cp_eq(m->m[0][2], 0)) { return false; }
+        return true;
+    }
+    /*   O O ?
+     *   O ? 0
+     *   ? O O  */
     if (!cp_eq(m->m[1][2], 0)) { return false; }
     return true;
 }
-- 
2.43.0


From 54f02d1a87d87cfab6b396beacdc6b35ab2c0ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 53/72] fix: intersection with an ignored last child aborted,
 and one with an empty object was not empty

---
 src/hob3l/csg3.c | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index a04beab..90e74bf 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -240,23 +240,34 @@ static bool csg3_from_intersection(
     cp_v_csg_add_p_t cut = CP_V_INIT;
 
     /* each child is a union */
-    cp_v_obj_p_t add = CP_V_INIT;
+    bool have_empty = false;
     for (cp_v_each(i, &s->child)) {
-        csg3_cut_push_add(&cut, &add);
-        if (!csg3_from_scad(no, &add, c, m, cp_v_nth(&s->child, i))) {
+        cp_v_obj_p_t add = CP_V_INIT;
+        bool add_no = false;
+        if (!csg3_from_scad(&add_no, &add, c, m, cp_v_nth(&s->child, i))) {
             assert(c->err->msg.size > 0);
             return false;
         }
+        if (add_no) {
+            *no = true;
+            if (add.size == 0) {
+                /* an object without any volume: nothing will remain */
+                have_empty = true;
+            }
+        }
+        csg3_cut_push_add(&cut, &add);
     }
 
-    if (cut.size == 0) {
-        cp_v_append(r, &add);
-        cp_v_fini(&add);
+    if ((cut.size == 0) || have_empty) {
+        /* empty, ignore */
         return true;
     }
 
-    csg3_cut_push_add(&cut, &add);
-    assert(cut.size >= 2);
+    if (cut.size == 1) {
+        /* all other children are ignored => push the only one to output */
+        cp_v_append(r, &cp_v_nth(&cut, 0)->add);
+        return true;
+    }
 
     cp_csg_cut_t *o = cp_csg_new(*o, s->loc);
     cp_v_push(r, cp_obj(o));
-- 
2.43.0


From c14aa8599233f2c4288cab7b2901aee4a709480a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 54/72] fix: PostScript output crashed for models with empty
 layers

---
 src/hob3l/csg2-2ps.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hob3l/csg2-2ps.c b/src/hob3l/csg2-2ps.c
index 623fd48..b4a775a 100644
--- a/src/hob3l/csg2-2ps.c
+++ b/src/hob3l/csg2-2ps.c
@@ -211,6 +211,9 @@ static void layer_put_ps(
     size_t zi,
     cp_csg2_layer_t *r)
 {
+    if (cp_csg_add_size(r->root) == 0) {
+        return;
+    }
     if (zi != r->zi) {
         return;
     }
-- 
2.43.0


From 65584a63e98da15738f79fbc29557f6ecf54ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:24 +0000
Subject: [PATCH 55/72] fix: PostScript page scale compared the Y extent with
 the X minimum

---
 src/hob3l/ps.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/ps.c b/src/hob3l/ps.c
index 8a55ab9..5d673aa 100644
--- a/src/hob3l/ps.c
+++ b/src/hob3l/ps.c
@@ -18,7 +18,7 @@ extern void cp_ps_xform_from_minmax(
     cp_dim_t y_max)
 {
     *d = CP_PS_XFORM_MM;
-    if (cp_gt(x_max, x_min) && cp_gt(y_max, x_min)) {
+    if (cp_gt(x_max, x_min) && cp_gt(y_max, y_min)) {
         d->mul_x = cp_min(
             (CP_PS_PAPER_X - CP_PS_PAPER_MARGIN) / (x_max - x_min),
             (CP_PS_PAPER_Y - CP_PS_PAPER_MARGIN) / (y_max - y_min));
-- 
2.43.0


From 814d5f2cba0466ec08cabf59c914898218cf7a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:25 +0000
Subject: [PATCH 56/72] fix: bounding box of an intersection ignored its first
 operand and kept the remains of an empty one

---
 src/hob3l/csg3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 90e74bf..a990bb8 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2399,12 +2399,13 @@ static void get_bb_cut(
     }
     else {
         cp_vec3_minmax_t bb2 = CP_VEC3_MINMAX_FULL;
-        for (cp_v_each(i, &r->cut, 1)) {
+        for (cp_v_each(i, &r->cut)) {
             cp_vec3_minmax_t bb3 = CP_VEC3_MINMAX_EMPTY;
             get_bb_add(&bb3, cp_v_nth(&r->cut,i), max);
             cp_vec3_minmax_and(&bb2, &bb2, &bb3);
             if (!cp_vec3_minmax_valid(&bb2)) {
-                break;
+                /* nothing in common: this does not contribute */
+                return;
             }
         }
         cp_vec3_minmax_or(bb, bb, &bb2);
-- 
2.43.0


From 76ef873b6a8769349a302128b120450f3a2dd875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 57/72] fix: cylinder with a negative and a positive radius
 made a self-intersecting solid

The radii are documented to be at least 0, but only both together were
rejected.
---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index a990bb8..4ed031a 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1530,7 +1530,7 @@ static bool csg3_from_cylinder(
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty cylinder, but h="FF".\n", s->h);
     }
-    if (cp_le(r1, 0) && cp_le(r2, 0)) {
+    if (cp_lt(r1, 0) || cp_lt(r2, 0) || (cp_le(r1, 0) && cp_le(r2, 0))) {
         return msg(c, c->opt->err_empty, s->loc, NULL,
             "Expected non-empty cylinder, but r1="FF", r2="FF".\n",
             r1, r2);
-- 
2.43.0


From 0f7a87347a4d5e4848001105b9ebb7c20016906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:39 +0000
Subject: [PATCH 58/72] fix: linear_extrude with negative scale used the
 unclamped scale for its layers

When a negative scale is not an error (--empty=warn or ignore), it is
handled as 0, but the intermediate layers were still computed from the
negative value.
---
 src/hob3l/csg3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 4ed031a..598418b 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -1727,7 +1727,7 @@ static bool csg3_from_linext(
             cp_mat2w_t mk = {0};
             cp_mat2w_rot(&mk, &CP_SINCOS_DEG(z * -twist));
             cp_mat2w_t mks = {0};
-            cp_mat2w_scale(&mks, cp_lerp(1, s->scale.x, z), cp_lerp(1, s->scale.y, z));
+            cp_mat2w_scale(&mks, cp_lerp(1, scale.x, z), cp_lerp(1, scale.y, z));
             cp_mat2w_mul(&mk, &mks, &mk);
             for (cp_v_each(j, &q->point_idx)) {
                  size_t const jo = cp_v_nth(&q->point_idx, j);
-- 
2.43.0


From a0ef69c3faa2316abbda680cf6b53d0c7453f5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 59/72] fix: '!' inside a subtree disabled by '*' was used as
 root of the model

---
 src/hob3l/scad.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 9436f41..977c8a0 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -35,6 +35,10 @@ typedef struct {
     cp_syn_input_t *input;
     cp_syn_tree_t *syn;
     cp_scad_opt_t const *opt;
+
+    /** Number of enclosing nodes (including the current one) that are
+     * disabled by a '*' modifier. */
+    unsigned disabled;
 } ctxt_t;
 
 typedef char const *val_t;
@@ -97,7 +101,7 @@ static bool func_new_(
     r->type = type;
     r->loc = syn->loc;
     r->modifier = syn->modifier;
-    if (r->modifier & CP_GC_MOD_ROOT) {
+    if ((r->modifier & CP_GC_MOD_ROOT) && (t->disabled == 0)) {
         if (t->top->root != NULL) {
             return msg(t, CP_ERR_FAIL, syn->loc, t->top->root->loc,
                 "Multiple '!' modifiers in tree.");
@@ -1624,6 +1628,11 @@ static bool v_scad_from_syn_stmt_item(
     }
     assert(c->type != 0);
 
+    bool disable = ((f->modifier & CP_GC_MOD_AST) == CP_GC_MOD_AST);
+    if (disable) {
+        t->disabled++;
+    }
+
     cp_scad_t *r;
     if (!func_new(&r, t, f, c->type)) {
         return false;
@@ -1631,7 +1640,12 @@ static bool v_scad_from_syn_stmt_item(
     cp_v_push(result, r);
 
     assert(c->from != NULL);
-    return c->from(t, f, r);
+    bool ok = c->from(t, f, r);
+
+    if (disable) {
+        t->disabled--;
+    }
+    return ok;
 }
 
 static bool v_scad_from_syn_stmt_use(
-- 
2.43.0


From 1d38806934da89c08a92d8c1797a62bb4704aac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 60/72] fix: objects collapsed by scale, multmatrix or
 projection were no operands of difference and intersection

---
 src/hob3l/csg3.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 598418b..9d9d259 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -336,6 +336,23 @@ static bool good_scale2(
         !cp_eq(v->y, 0);
 }
 
+/**
+ * Handle children that collapse into emptiness by a transformation: nothing
+ * is added to the result, but the children may be non-ignored objects, like
+ * other objects that are empty.
+ */
+static bool csg3_from_collapsed(
+    bool *no,
+    ctxt_t *c,
+    local_t const *m,
+    cp_v_scad_p_t const *ss)
+{
+    cp_v_obj_p_t r = CP_V_INIT;
+    bool ok = csg3_from_v_scad(no, &r, c, m, ss);
+    cp_v_fini(&r);
+    return ok;
+}
+
 static bool csg3_from_scale(
     bool *no,
     cp_v_obj_p_t *r,
@@ -344,8 +361,10 @@ static bool csg3_from_scale(
     cp_scad_scale_t const *s)
 {
     if (!good_scale(&s->v)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL,
-           "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v));
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL,
+                "Expected non-zero scale, but v=["FF3"].\n", CP_V012(s->v)) &&
+            csg3_from_collapsed(no, c, mo, &s->child);
     }
     cp_mat3wi_t *m1 = mat_new(c->tree);
     cp_mat3wi_scale_v(m1, &s->v);
@@ -365,7 +384,9 @@ static bool csg3_from_multmatrix(
 {
     cp_mat3wi_t *m1 = mat_new(c->tree);
     if (!cp_mat3wi_from_mat3w(m1, &s->m)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n");
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL, "Non-invertible matrix.\n") &&
+            csg3_from_collapsed(no, c, mo, &s->child);
     }
     cp_mat3wi_mul(m1, mo->mat, m1);
 
@@ -1180,8 +1201,10 @@ static bool csg3_from_projection(
     cp_mat2w_from_mat3w(&m2, &m->mat->n);
     cp_mat2wi_t m2i;
     if (!cp_mat2wi_from_mat2w(&m2i, &m2)) {
-        return msg(c, c->opt->err_collapse, s->loc, NULL,
-            "'projection' collapses into a line or point.\n");
+        return
+            msg(c, c->opt->err_collapse, s->loc, NULL,
+                "'projection' collapses into a line or point.\n") &&
+            csg3_from_collapsed(no, &c2, m, &s->child);
     }
     cp_mat3wi_t *m3 = mat_new(c->tree);
     cp_mat3wi_from_mat2wi(m3, &m2i);
-- 
2.43.0


From 65322751fedcd5449d574a9913991a4ac1fcd4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:06 +0000
Subject: [PATCH 61/72] fix: root inside a part marked with '%' was lost when
 the context is kept (JS output)

---
 src/hob3l/csg3.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/csg3.c b/src/hob3l/csg3.c
index 9d9d259..c797b1e 100644
--- a/src/hob3l/csg3.c
+++ b/src/hob3l/csg3.c
@@ -2181,8 +2181,9 @@ static bool csg3_from_scad(
             mn.mat = the_unit(c->tree);
         }
 
-        /* ignore sub-structure? */
-        if (s->modifier & CP_GC_MOD_IGNORE) {
+        /* ignore sub-structure?  While searching, the root may be inside,
+         * and nothing else will be rendered anyway. */
+        if ((s->modifier & CP_GC_MOD_IGNORE) && (c->search_root == NULL)) {
             return true;
         }
 
-- 
2.43.0


From 3b9288be4bfa01f667e9d9c83d461b91483046c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 62/72] fix: slicing of concave faces along lines of negative
 slope paired the wrong points

Cut points on a face were sorted by their distance from the corner of their
bounding box, which is not on the cutting line if that has a negative slope:
the lines then crossed the gaps of concave faces and, after rounding, left
slivers there that are not part of the solid.
---
 src/hob3lop/op-slice.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/hob3lop/op-slice.c b/src/hob3lop/op-slice.c
index dbbec6f..6e77090 100644
--- a/src/hob3lop/op-slice.c
+++ b/src/hob3lop/op-slice.c
@@ -100,8 +100,8 @@ extern void cq_slice_add_face(
 
     /* for each poly, crossing points of the z are computed
      * and stored directly in out.  Then the out array (the part
-     * generated in this invocation) is sorted by x (and secondarily
-     * by y).  This should appropriately define cut lines.
+     * generated in this invocation) is sorted along the cutting line.
+     * This should appropriately define cut lines.
      * For degenerate polygons that produce an odd number of
      * lines, we cannot do much, except cut a vector out, which
      * is most certainly wrong.
@@ -123,12 +123,20 @@ extern void cq_slice_add_face(
         return;
     }
 
-    cq_vec2_minmax_t bb = CQ_VEC2_MINMAX_INIT;
+    /* All cut points are on one line: sort them by distance from one end of
+     * that line, i.e., from the point that is farthest from any of them.  (The
+     * corner of the bounding box is not on the line if the slope is negative.)
+     */
+    cq_vec2_t p0 = slice->out->data[i0];
+    cq_vec2_t orig = p0;
     for (cp_size_each(i, n)) {
-        cq_vec2_minmax(&bb, &slice->out->data[i0 + i]);
+        cq_vec2_t *p = &slice->out->data[i0 + i];
+        if (vec2_cmp(p, &orig, &p0) > 0) {
+            orig = *p;
+        }
     }
 
-    cp_v_qsort(slice->out, i0, n, &vec2_cmp, &bb.min);
+    cp_v_qsort(slice->out, i0, n, &vec2_cmp, &orig);
 }
 
 extern void cq_slice_fini(
-- 
2.43.0


From 341b413909fe06ff622aa626659141c0378b6c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 63/72] fix: JavaScript output rounded the scale and the
 transformation to 6 digits

With --grid=2^20, 'scaleV' was 1.04858e+09 instead of 1048576000.
---
 src/hob3l/csg2-2js.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/csg2-2js.c b/src/hob3l/csg2-2js.c
index e3e5e02..dc18a50 100644
--- a/src/hob3l/csg2-2js.c
+++ b/src/hob3l/csg2-2js.c
@@ -96,15 +96,15 @@ static void scene_flush(
             }
         }
         cp_printf(s, "},\n");
-        cp_printf(s, "   'scaleV':%16g,\n", 1000.0 * PT_GRAN);
+        cp_printf(s, "   'scaleV':"FF",\n", 1000.0 * PT_GRAN);
         cp_printf(s, "   'scaleC':255,\n");
         cp_printf(s, "   'shiftI':%u,\n", SHIFT_I);
 
         if (c->tree->root_xform != NULL) {
             cp_mat3w_t const *n = &c->tree->root_xform->n;
             cp_printf(s,
-                "   'xform':[%16g,%16g,%16g,0, %16g,%16g,%16g,0, "
-                "%16g,%16g,%16g,0, %16g,%16g,%16g,1],\n",
+                "   'xform':["FF","FF","FF",0, "FF","FF","FF",0, "
+                FF","FF","FF",0, "FF","FF","FF",1],\n",
                 n->b.m[0][0], n->b.m[1][0], n->b.m[2][0],
                 n->b.m[0][1], n->b.m[1][1], n->b.m[2][1],
                 n->b.m[0][2], n->b.m[1][2], n->b.m[2][2],
-- 
2.43.0


From 677b71dababec22edf905c049d84ad94244f66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 64/72] fix: dumped scene lost parameters, or used names and
 values that are not accepted

--dump-scad wrote import() and surface() with a parameter 's' that does
not exist, without layer, id, center, and dpi, colors without mandatory
'c', and text() without tracking but with parameters that text() does
not have (the documented $fn was not accepted either).  Angles, $fa,
$fs, size, and spacing were rounded to 6 digits.
---
 src/hob3l/scad-2scad.c | 39 +++++++++++++++++++++++----------------
 src/hob3l/scad.c       |  1 +
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/hob3l/scad-2scad.c b/src/hob3l/scad-2scad.c
index 4cb6818..194a670 100644
--- a/src/hob3l/scad-2scad.c
+++ b/src/hob3l/scad-2scad.c
@@ -67,7 +67,7 @@ static void linext_put_scad(
 {
     cp_printf(s, "linear_extrude("
         "height="FF", scale=["FF","FF"], twist="FF", slices=%u, center=%s"
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF""
         "){\n",
         r->height, r->scale.x, r->scale.y, r->twist,
         r->slices, r->center ? "true" : "false",
@@ -82,8 +82,8 @@ static void rotext_put_scad(
     cp_scad_rotext_t const *r)
 {
     cp_printf(s, "rotate_extrude("
-        "angle=%g"
-        ", $fn=%u, $fa=%g, $fs=%g"
+        "angle="FF""
+        ", $fn=%u, $fa="FF", $fs="FF""
         "){\n", r->angle,
         r->detail._fn, r->detail._fa, r->detail._fs);
     v_scad_put_scad(s, d + IND, &r->child);
@@ -113,7 +113,7 @@ static void color_put_scad(
             r->rgba.a/255.0);
     }
     else {
-        cp_printf(s, "color(alpha=%.3g){\n",
+        cp_printf(s, "color(c=undef,alpha=%.3g){\n",
             r->rgba.a/255.0);
     }
     v_scad_put_scad(s, d + IND, &r->child);
@@ -124,10 +124,17 @@ static void import_put_scad(
     cp_stream_t *s,
     cp_scad_import_t const *r)
 {
-    cp_printf(s, "import(s=\"%s\""
-        ", $fn=%u, $fa=%g, $fs=%g"
+    cp_printf(s, "import(file=\"%s\"", r->file_tok);
+    if (r->layer != NULL) {
+        cp_printf(s, ", layer=\"%s\"", r->layer);
+    }
+    if (r->id_tok != NULL) {
+        cp_printf(s, ", id=\"%s\"", r->id_tok);
+    }
+    cp_printf(s, ", center=%s, dpi="FF""
+        ", $fn=%u, $fa="FF", $fs="FF""
         ");\n",
-        r->file_tok,
+        r->center ? "true" : "false", r->dpi,
         r->detail._fn, r->detail._fa, r->detail._fs);
 }
 
@@ -135,7 +142,7 @@ static void surface_put_scad(
     cp_stream_t *s,
     cp_scad_surface_t const *r)
 {
-    cp_printf(s, "surface(s=\"%s\",center=%s);\n",
+    cp_printf(s, "surface(file=\"%s\",center=%s);\n",
         r->file_tok, r->center?"true":"false");
 }
 
@@ -144,13 +151,13 @@ static void text_put_scad(
     cp_scad_text_t const *r)
 {
     cp_printf(s,
-        "text(text=\"%s\",size=%g,font=\"%s\",halign=\"%s\",valign=\"%s\","
-        "spacing=%g,direction=\"%s\",language=\"%s\",script=\"%s\""
-        ",$fn=%u,$fa=%g,$fs=%g"
+        "text(text=\"%s\",size="FF",font=\"%s\",halign=\"%s\",valign=\"%s\","
+        "spacing="FF",tracking="FF",direction=\"%s\",language=\"%s\",script=\"%s\""
+        ",$fn=%u"
         ");\n",
         r->text, r->size, r->font, r->halign, r->valign,
-        r->spacing, r->direction, r->language, r->script,
-        r->detail._fn, r->detail._fa, r->detail._fs);
+        r->spacing, r->tracking, r->direction, r->language, r->script,
+        r->detail._fn);
 }
 
 static void projection_put_scad(
@@ -204,7 +211,7 @@ static void sphere_put_scad(
     cp_scad_sphere_t const *r)
 {
     cp_printf(s, "sphere(r="FF""
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF""
         ");\n",
         r->r,
         r->detail._fn, r->detail._fa, r->detail._fs);
@@ -215,7 +222,7 @@ static void circle_put_scad(
     cp_scad_circle_t const *r)
 {
     cp_printf(s, "circle(r="FF""
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF""
         ");\n",
         r->r,
         r->detail._fn, r->detail._fa, r->detail._fs);
@@ -226,7 +233,7 @@ static void cylinder_put_scad(
     cp_scad_cylinder_t const *r)
 {
     cp_printf(s, "cylinder(h="FF", r1="FF", r2="FF", center=%s"
-        ", $fn=%u, $fa=%g, $fs=%g"
+        ", $fn=%u, $fa="FF", $fs="FF""
         ");\n",
         r->h, r->r1, r->r2,
         r->center ? "true" : "false",
diff --git a/src/hob3l/scad.c b/src/hob3l/scad.c
index 977c8a0..260319b 100644
--- a/src/hob3l/scad.c
+++ b/src/hob3l/scad.c
@@ -1553,6 +1553,7 @@ static bool text_from_item(
             PARAM_STR   ("script",    &q->script,    OPTIONAL),
             PARAM_FLOAT ("spacing",   &q->spacing,   OPTIONAL),
             PARAM_FLOAT ("tracking",  &q->tracking,  OPTIONAL),
+            PARAM_UINT32("$fn",  &q->detail._fn, OPTIONAL),
         )))
     {
         return false;
-- 
2.43.0


From 3d3c1e381c983c363e7453f6503ccd3fee5dcd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:08 +0000
Subject: [PATCH 65/72] fix: dumped syntax tree lost modifiers, and groups
 without functor were unreadable

---
 src/hob3l/syn-2scad.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hob3l/syn-2scad.c b/src/hob3l/syn-2scad.c
index 6a0fed3..234dd98 100644
--- a/src/hob3l/syn-2scad.c
+++ b/src/hob3l/syn-2scad.c
@@ -10,6 +10,7 @@
 #include <hob3lbase/stream.h>
 #include <hob3lbase/panic.h>
 #include <hob3l/syn.h>
+#include <hob3l/gc.h>
 #include "internal.h"
 
 static void cp_syn_stmt_put_scad(
@@ -84,7 +85,9 @@ static void cp_syn_stmt_item_put_scad(
     cp_syn_stmt_item_t *f)
 {
     cp_printf(s, "%*s", d, "");
-    if (f->functor != NULL) {
+    cp_gc_modifier_put_scad(s, f->modifier);
+    bool group = (f->functor != NULL) && (f->functor[0] == '{');
+    if ((f->functor != NULL) && !group) {
         cp_printf(s, "%s(", f->functor);
         for (cp_v_each(i, &f->arg)) {
             cp_syn_arg_t const *a = f->arg.data[i];
@@ -98,11 +101,11 @@ static void cp_syn_stmt_item_put_scad(
         }
         cp_printf(s, ")");
     }
-    if (f->body.size == 0) {
+    if ((f->body.size == 0) && !group) {
         cp_printf(s, ";\n");
         return;
     }
-    cp_printf(s, " {\n");
+    cp_printf(s, "%s{\n", group ? "" : " ");
     for (cp_v_each(i, &f->body)) {
         cp_syn_stmt_item_put_scad(s, d+IND, f->body.data[i]);
     }
-- 
2.43.0


From e5700e5940bc055b492cdce409d81e363e7c0df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 66/72] fix: a file including itself was only stopped by the
 number of open files

---
 src/hob3l/syn.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index 87fb12f..fadba0d 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -885,6 +885,11 @@ static bool parse_include_push_stmt_item(
     }
     expect(p, T_PATH);
 
+    /* a file may include itself => limit the nesting */
+    if (!enter(p)) {
+        return false;
+    }
+
     parse_ctxt_t prev = begin_file(p, file);
 
     if (!parse_stmt_item_list(p, r)) {
@@ -898,7 +903,7 @@ static bool parse_include_push_stmt_item(
     }
 
     end_file(p, &prev);
-    return true;
+    return leave(p);
 }
 
 static bool parse_item_push_stmt_item(
-- 
2.43.0


From b2348ebfa0aadcdd657b137cfbaa9cc0b32d8353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 67/72] fix: input files were never closed, so models with many
 imports could not be read

---
 src/hob3l/syn.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/hob3l/syn.c b/src/hob3l/syn.c
index fadba0d..962698c 100644
--- a/src/hob3l/syn.c
+++ b/src/hob3l/syn.c
@@ -1004,6 +1004,18 @@ static bool is_absolute(
     return false;
 }
 
+/**
+ * Close the input file if it was opened by read_file(), not by the caller */
+static void close_file(
+    cp_syn_file_t *f,
+    bool opened)
+{
+    if (opened) {
+        (void)fclose(f->file);
+    }
+    f->file = NULL;
+}
+
 static bool read_file(
     cp_err_t *err,
     cp_syn_input_t *input,
@@ -1032,7 +1044,8 @@ static bool read_file(
     }
 
     cp_vchar_printf(&f->filename, "%s%s", cp_vchar_cstr(&dir), filename);
-    if (file == NULL) {
+    bool opened = (file == NULL);
+    if (opened) {
         (void)cp_vchar_cstr(&f->filename);
         file = fopen(f->filename.data, "rb");
         if (file == NULL) {
@@ -1058,12 +1071,15 @@ static bool read_file(
                 break;
             }
             cp_vchar_printf(&err->msg, "File read error: %s.\n",
-                strerror(ferror(f->file)));
+                strerror(errno));
             err->loc = include_loc;
+            close_file(f, opened);
             return false;
         }
         cp_vchar_append_arr(&f->content, buff, cnt);
     }
+    close_file(f, opened);
+
     size_t z = f->content.size;
     cp_vchar_push(&f->content, '\0');
     f->content.size = z;
-- 
2.43.0


From 59223130f06cfe1bc26cdb5129b3c097b24244b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 68/72] fix: partial writes of the output were taken as success

---
 src/hob3lbase/stream.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3lbase/stream.c b/src/hob3lbase/stream.c
index f4fbc38..31d0e32 100644
--- a/src/hob3lbase/stream.c
+++ b/src/hob3lbase/stream.c
@@ -42,7 +42,7 @@ extern void cp_stream_fwrite(
     size_t size)
 {
     size_t i = fwrite(buff, 1, size, f);
-    if (i == 0) {
+    if (i < size) {
         cp_panic(CP_FILE, CP_LINE, "Unable to write output file: %s\n",
             strerror(ferror(f)));
     }
-- 
2.43.0


From d35454ec65c4c63fb16afec5fcc4be011c95e891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:19 +0000
Subject: [PATCH 69/72] fix: output to stdout that could not be written was
 lost without an error

---
 src/hob3l/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 706848f..60daa76 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -788,6 +788,10 @@ int main(int argc, char **argv)
                 opt.out_file_name, strerror(ferror(fout)));
         }
     }
+    else if (fflush(stdout) != 0) {
+        cp_panic(CP_FILE, CP_LINE, "Unable to write output: %s\n",
+            strerror(errno));
+    }
 
     /* print error */
     if (!ok) {
-- 
2.43.0


From 2a0487af12e5c5cead0a25e5f203ea6a3733acfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:50 +0000
Subject: [PATCH 70/72] fix: string buffers did not notice when memory ran out

---
 src/hob3lbase/vchar.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hob3lbase/vchar.c b/src/hob3lbase/vchar.c
index 4cd3448..7bd3c85 100644
--- a/src/hob3lbase/vchar.c
+++ b/src/hob3lbase/vchar.c
@@ -2,6 +2,7 @@
 /* Copyright (C) 2018-2024 by Henrik Theiling, License: GPLv3, see LICENSE file */
 
 #include <stdio.h>
+#include <hob3lbase/alloc.h>
 #include <hob3lbase/vchar.h>
 
 /**
@@ -35,6 +36,9 @@ static void v_grow(
     }
 
     vec->data = realloc(vec->data, sizeof(vec->data[0]) * new_alloc);
+    if (vec->data == NULL) {
+        cp_panic(CP_FILE, CP_LINE, "Out of memory\n");
+    }
     vec->alloc = new_alloc;
 }
 
-- 
2.43.0


From 29b1f40e1fb8acfb9978d673692e6f83cfb623e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:28 +0000
Subject: [PATCH 71/72] fix: short vectors were reported to have a unit vector
 that was zero

cp_vec*_unit() compared the length with cp_sqr_epsilon for its return
value, but divides only if it is at least cp_eq_epsilon.  In between,
it returned success and a zero vector, so cp_vec3_normal() did not try
again with normalised vectors, and layers of large rotated ellipsoids
were cut as if they were not rotated.
---
 script/mkmat               | 2 +-
 src/hob3lmat/mat_gen_ext.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/mkmat b/script/mkmat
index deb168a..acc585a 100755
--- a/script/mkmat
+++ b/script/mkmat
@@ -475,7 +475,7 @@ sub gen_unit_vec($$$)
     my $s = '';
     $s .= "    $tdim l = ${name}_len(a);\n";
     $s .= "    ${name}_div(r, a, l);\n";
-    $s .= "    return !X_sqr_eq(l,0);\n";
+    $s .= "    return !X_eq(l,0);\n";
     publish_extern($oc, $p, $s);
 }
 
diff --git a/src/hob3lmat/mat_gen_ext.c b/src/hob3lmat/mat_gen_ext.c
index c1264ef..ea1aef6 100644
--- a/src/hob3lmat/mat_gen_ext.c
+++ b/src/hob3lmat/mat_gen_ext.c
@@ -339,7 +339,7 @@ extern bool cp_vec2_unit(
 {
     double l = cp_vec2_len(a);
     cp_vec2_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec3_unit(
@@ -348,7 +348,7 @@ extern bool cp_vec3_unit(
 {
     double l = cp_vec3_len(a);
     cp_vec3_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern bool cp_vec4_unit(
@@ -357,7 +357,7 @@ extern bool cp_vec4_unit(
 {
     double l = cp_vec4_len(a);
     cp_vec4_div(r, a, l);
-    return !cp_sqr_eq(l,0);
+    return !cp_eq(l,0);
 }
 
 extern void cp_vec2_lerp(
-- 
2.43.0


From 9e3d736f7f44d064a516da56876097cff2632326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:27 +0000
Subject: [PATCH 72/72] fix: --gran: use values below the comparison tolerance
 instead of ignoring them

Values of less than 2^-15 were taken for 0, i.e., as if the option was
not given: --gran=2^-20, the example from its own help text, kept the
default grid of 2^13.
---
 src/hob3l/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hob3l/main.c b/src/hob3l/main.c
index 60daa76..8dce319 100644
--- a/src/hob3l/main.c
+++ b/src/hob3l/main.c
@@ -706,7 +706,7 @@ int main(int argc, char **argv)
     }
 
     /* post-process options */
-    if (!cp_eq(opt.cq_dim_scale_recip, 0)) {
+    if (fabs(opt.cq_dim_scale_recip) > 0) {
         cq_dim_scale = 1.0 / opt.cq_dim_scale_recip;
     }
     if (cp_sqr_epsilon > cp_eq_epsilon) {
-- 
2.43.0

