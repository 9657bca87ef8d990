From 2dc23cc3ae88b622eee0fce1e5eea0ecb0349ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:54 +0000
Subject: [PATCH 01/25] fix: tg_line_covers_line looped forever or accepted
 uncovered segments

The walk along both lines could bounce between two segments forever, skipped
segments of b that matched neither end, and returned true after running past
the end of a. Require that each segment of b is covered by a segment of a.
---
 tg.c | 51 +++++++++++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/tg.c b/tg.c
index ca67505..c4e1bce 100644
--- a/tg.c
+++ b/tg.c
@@ -3466,39 +3466,34 @@ bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) {
     if (!tg_rect_covers_rect(tg_line_rect(a), tg_line_rect(b))) {
         return false;
     }
-    // locate the first "other" segment that contains the first "line" segment.
+    // Every segment of "b" must be covered by a segment of "a". The search for
+    // each one starts at the segment of "a" that covered the previous one, and
+    // moves outwards in both directions, because it's usually that segment or
+    // one of its neighbors.
     int ansegs = tg_line_num_segments(a);
-    int j = -1;
-    for (int k = 0; k < ansegs; k++) {
-        if (tg_segment_covers_segment(tg_line_segment_at(a, k),
-            tg_line_segment_at(b, 0)))
-        {
-            j = k;
-            break;
-        }
-    }
-    if (j == -1) {
-        return false;
-    }
     int bnsegs = tg_line_num_segments(b);
-    for (int i = 1; i < bnsegs && j < ansegs; i++) {
-        struct tg_segment aseg = tg_line_segment_at(a, j);
+    int j = 0;
+    for (int i = 0; i < bnsegs; i++) {
         struct tg_segment bseg = tg_line_segment_at(b, i);
-        if (tg_segment_covers_segment(aseg, bseg)) {
-            continue;
-        }
-        if (pteq(bseg.a, aseg.a)) {
-            // reverse it
-            if (j == 0) {
-                return false;
+        int lo = j, hi = j+1, k = -1;
+        while (k == -1 && (lo >= 0 || hi < ansegs)) {
+            if (lo >= 0) {
+                if (tg_segment_covers_segment(tg_line_segment_at(a, lo), bseg)) {
+                    k = lo;
+                }
+                lo--;
             }
-            j--;
-            i--;
-        } else if (pteq(bseg.a, aseg.b)) {
-            // forward it
-            j++;
-            i--;
+            if (k == -1 && hi < ansegs) {
+                if (tg_segment_covers_segment(tg_line_segment_at(a, hi), bseg)) {
+                    k = hi;
+                }
+                hi++;
+            }
+        }
+        if (k == -1) {
+            return false;
         }
+        j = k;
     }
     return true;
 }
-- 
2.43.0


From c04d9ce81e5f8bcbe84894ecbccb10cc0c4137d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 02/25] fix: out of bounds read in
 tg_geom_{point,line,poly,geometry}_at

An index equal to the number of children was accepted and read one element
past the end of the child array.
---
 tg.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index c4e1bce..32061a3 100644
--- a/tg.c
+++ b/tg.c
@@ -5402,7 +5402,7 @@ int tg_geom_num_geometries(const struct tg_geom *geom) {
 struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOINT && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return ((struct boxed_point*)geom->multi->geoms[index])->point;
     }
@@ -5419,7 +5419,7 @@ struct tg_point tg_geom_point_at(const struct tg_geom *geom, int index) {
 const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTILINESTRING && 
-        geom->multi &&index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi &&index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_line*)geom->multi->geoms[index];
     }
@@ -5436,7 +5436,7 @@ const struct tg_line *tg_geom_line_at(const struct tg_geom *geom, int index) {
 const struct tg_poly *tg_geom_poly_at(const struct tg_geom *geom, int index) {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_MULTIPOLYGON && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return (struct tg_poly *)geom->multi->geoms[index];
     }
@@ -5458,7 +5458,7 @@ const struct tg_geom *tg_geom_geometry_at(const struct tg_geom *geom,
 {
     if (geom && geom->head.base == BASE_GEOM && 
         geom->head.type == TG_GEOMETRYCOLLECTION && 
-        geom->multi && index >= 0 && index <= geom->multi->ngeoms)
+        geom->multi && index >= 0 && index < geom->multi->ngeoms)
     {
         return geom->multi->geoms[index];
     }
-- 
2.43.0


From 51d56c140cfa93ff56707f3f3c872fcd81bf07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 03/25] fix: JSON strings ending in an invalid escape were
 accepted

vesc returns a negative position on failure, and vstring negated it once more
into a position that reads as success.
---
 deps/json.c | 2 +-
 tg.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index b3e1a96..a9beb73 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -138,7 +138,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
diff --git a/tg.c b/tg.c
index 32061a3..c0d98e3 100644
--- a/tg.c
+++ b/tg.c
@@ -6869,7 +6869,7 @@ static int64_t vstring(const uint8_t *json, int64_t jlen, int64_t i) {
             i += res.n;
 #endif
         } else if (json[i] == '\\') {
-            if ((i = vesc(json, jlen, i)) < 0) break;
+            if ((i = vesc(json, jlen, i)) < 0) return i;
         } else {
             break;
         }
-- 
2.43.0


From 74df526f4cfdea0d06eca13b004ecd5e76062922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 04/25] fix: JSON strings with overlong UTF-8 were accepted,
 U+10FFFF rejected

Only overlong forms of ASCII were caught, and the last valid codepoint was
treated as out of range.
---
 deps/json.c | 5 +++--
 tg.c        | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/deps/json.c b/deps/json.c
index a9beb73..51636a4 100644
--- a/deps/json.c
+++ b/deps/json.c
@@ -64,8 +64,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
     } else {
         goto fail;
     }
-    if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    // don't allow codepoints that fit in a shorter sequence
+    if (cp < (n == 2 ? 0x80 : n == 3 ? 0x800 : 0x10000)) goto fail;
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
diff --git a/tg.c b/tg.c
index c0d98e3..139b388 100644
--- a/tg.c
+++ b/tg.c
@@ -6795,8 +6795,9 @@ static inline struct vutf8res vutf8(const uint8_t data[], int64_t len) {
     } else {
         goto fail;
     }
-    if (cp < 128) goto fail; // don't allow multibyte ascii characters
-    if (cp >= 0x10FFFF) goto fail; // restricted to utf-16
+    // don't allow codepoints that fit in a shorter sequence
+    if (cp < (n == 2 ? 0x80 : n == 3 ? 0x800 : 0x10000)) goto fail;
+    if (cp > 0x10FFFF) goto fail; // restricted to utf-16
     if (cp >= 0xD800 && cp <= 0xDFFF) goto fail; // needs surrogate pairs
     return (struct vutf8res) { .n = n, .cp = cp };
 fail:
-- 
2.43.0


From 1e36aaa2c0439c5a4e0ddf70716f10e2197c3705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 05/25] fix: reference counting with TG_NOATOMICS

The increments moved the local pointer instead of changing the count, so a
shared component was released with its first owner or not at all.
---
 tg.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index 139b388..63a6f01 100644
--- a/tg.c
+++ b/tg.c
@@ -549,11 +549,10 @@ static void rc_init(rc_t *rc) {
     *rc = 0;
 }
 static void rc_retain(rc_t *rc) {
-    *rc++;
+    (*rc)++;
 }
 static bool rc_release(rc_t *rc) {
-    *rc--;
-    return *rc == 1;
+    return --(*rc) == 0;
 }
 
 #else
-- 
2.43.0


From cd99942f65e3a6aa792bc7a6ab294502d9b6d38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 06/25] fix: out of bounds read when parsing a WKB with a huge
 point count

The byte size of the points was calculated in 32 bits and wrapped around.
---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 63a6f01..ebfa21b 100644
--- a/tg.c
+++ b/tg.c
@@ -13328,11 +13328,11 @@ static size_t parse_wkb_posns(enum base base, int dims,
     uint32_t count;
     read_uint32(count);
     if (count == 0) return i;
-    if (dims == 2 && !swap && len-i >= count*2*8) {
+    if (dims == 2 && !swap && (len-i)/16 >= count) {
         // Use the point data directly. No allocations. 
         *points = (void*)(wkb+i);
         *npoints = count;
-        i += count*2*8; 
+        i += (size_t)count*2*8; 
     } else {
         for (uint32_t j = 0 ; j < count; j++) {
             read_posn(posn);
-- 
2.43.0


From 494ba5464b8b01ea25edaba6a54fafca697eec31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:55 +0000
Subject: [PATCH 07/25] fix: index rectangles that do not cover their segments

For coordinates beyond FLT_MAX, or in the range of denormal floats, the
conversion of an index rectangle to floats could round inwards, and indexed
searches that compare it with a double precision rectangle missed segments.
---
 tg.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index ebfa21b..3f1f0de 100644
--- a/tg.c
+++ b/tg.c
@@ -1524,13 +1524,25 @@ static double fup(double d) {
     return fnext0(d, 1);
 }
 
+// Converting to a float can round the wrong way for values that are outside
+// of the range of a normal float.
+static float fdownf(double d) {
+    float f = fdown(d);
+    return f > d ? nextafterf(f, -INFINITY) : f;
+}
+
+static float fupf(double d) {
+    float f = fup(d);
+    return f < d ? nextafterf(f, INFINITY) : f;
+}
+
 static void tg_rect_to_ixrect(struct tg_rect *rect, 
     struct ixrect *ixrect)
 {
-    ixrect->min.x = fdown(rect->min.x);
-    ixrect->min.y = fdown(rect->min.y);
-    ixrect->max.x = fup(rect->max.x);
-    ixrect->max.y = fup(rect->max.y);
+    ixrect->min.x = fdownf(rect->min.x);
+    ixrect->min.y = fdownf(rect->min.y);
+    ixrect->max.x = fupf(rect->max.x);
+    ixrect->max.y = fupf(rect->max.y);
 }
 
 #else
-- 
2.43.0


From cba94ccb2fa9a60c1b55ad377d6f95d57e2f1e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 08/25] fix: y-stripes index of rings having no height, or an
 infinite one

The stripe of a segment was calculated from a NaN, no segment was put in any
stripe, and points on the ring were not found.
---
 tg.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/tg.c b/tg.c
index 3f1f0de..c0f7474 100644
--- a/tg.c
+++ b/tg.c
@@ -1682,6 +1682,13 @@ struct ystripes {
     struct ystripe stripes[];
 };
 
+// Returns the stripe that contains y. A ring having no height, or one with a 
+// height that is too large for a double, has everything in the first stripe.
+static int ystripe_at(double y, double ymin, double height, int nstripes) {
+    double i = (y - ymin) / height * (double)nstripes;
+    return i >= nstripes ? nstripes-1 : i > 0 ? (int)i : 0;
+}
+
 static bool process_ystripes(struct tg_ring *ring) {
     double score = tg_ring_polsby_popper_score(ring);
     int nstripes = ring->nsegs * score;
@@ -1705,10 +1712,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_at(ymin, ring->rect.min.y, height, nstripes);
+        int max = ystripe_at(ymax, ring->rect.min.y, height, nstripes);
         for (int j = min; j <= max; j++) {
             ycounts[j]++;
             nmap++;
@@ -1738,10 +1743,8 @@ static bool process_ystripes(struct tg_ring *ring) {
     for (int i = 0; i < ring->nsegs; i++) {
         double ymin = fmin0(ring->points[i].y, ring->points[i+1].y);
         double ymax = fmax0(ring->points[i].y, ring->points[i+1].y);
-        int min = (ymin - ring->rect.min.y) / height * (double)nstripes;
-        int max = (ymax - ring->rect.min.y) / height * (double)nstripes;
-        min = fmax0(min, 0);
-        max = fmin0(max, nstripes-1);
+        int min = ystripe_at(ymin, ring->rect.min.y, height, nstripes);
+        int max = ystripe_at(ymax, ring->rect.min.y, height, nstripes);
         for (int j = min; j <= max; j++) {
             struct ystripe *stripe = &ystripes->stripes[j];
             stripe->indexes[stripe->count++] = i;
@@ -2709,8 +2712,7 @@ static struct ring_result ystripes_pip(const struct tg_ring *ring,
     int idx = -1;
     struct ystripes *ystripes = ring->ystripes;
     double height = ring->rect.max.y-ring->rect.min.y;
-    int y = (point.y - ring->rect.min.y) / height * (double)ystripes->nstripes;
-    y = fclamp0(y, 0, ystripes->nstripes-1);
+    int y = ystripe_at(point.y, ring->rect.min.y, height, ystripes->nstripes);
     struct ystripe *ystripe = &ystripes->stripes[y];
     for (int i = 0; i < ystripe->count; i++) {
         int j = ystripe->indexes[i];
-- 
2.43.0


From 33e66986865c7c38a5dff83bf027cb61fffba519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 09/25] fix: deep copies shared index memory with the original

tg_ring_copy, tg_line_copy and tg_geom_copy copied the pointers inside of the
index and y-stripes as they were, so a copy read freed memory once its original
was gone.
---
 tg.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/tg.c b/tg.c
index c0f7474..392ca87 100644
--- a/tg.c
+++ b/tg.c
@@ -15056,6 +15056,14 @@ int tg_geom_de9im_dims(const struct tg_geom *geom) {
     return dims;
 }
 
+// Make the levels of a copied index point to its own rectangles.
+static void rebase_index(struct index *copy, const struct index *index) {
+    for (int i = 0; i < index->nlevels; i++) {
+        copy->levels[i].rects = (void*)((char*)copy + 
+            ((char*)index->levels[i].rects - (char*)index));
+    }
+}
+
 /// Copies a ring
 /// @param ring Input ring, caller retains ownership.
 /// @return A duplicate of the provided ring. 
@@ -15076,6 +15084,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
     rc_init(&ring2->head.rc);
     rc_retain(&ring2->head.rc);
     ring2->head.noheap = 0;
+    if (ring->index) {
+        // The index shares the same allocation as the ring.
+        ring2->index = (void*)((char*)ring2 + 
+            ((char*)ring->index - (char*)ring));
+        rebase_index(ring2->index, ring->index);
+    }
     if (ring->ystripes) {
         ring2->ystripes = tg_malloc(ring->ystripes->memsz);
         if (!ring2->ystripes) {
@@ -15083,6 +15097,12 @@ struct tg_ring *tg_ring_copy(const struct tg_ring *ring) {
             return NULL;
         }
         memcpy(ring2->ystripes, ring->ystripes, ring->ystripes->memsz);
+        for (int i = 0; i < ring->ystripes->nstripes; i++) {
+            ring2->ystripes->stripes[i].indexes = 
+                (void*)((char*)ring2->ystripes +
+                ((char*)ring->ystripes->stripes[i].indexes - 
+                (char*)ring->ystripes));
+        }
     }
     return ring2;
 }
@@ -15208,6 +15228,7 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
                 }
                 memcpy(geom2->multi->index, geom->multi->index, 
                     geom->multi->index->memsz);
+                rebase_index(geom2->multi->index, geom->multi->index);
             }
             if (geom->multi->ixgeoms) {
                 geom2->multi->ixgeoms = tg_malloc(
-- 
2.43.0


From a7525b20adaa8993125f51ce2735912302aa87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 10/25] fix: tg_geom_copy failed for an empty linestring or
 polygon

---
 tg.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tg.c b/tg.c
index 392ca87..433d76d 100644
--- a/tg.c
+++ b/tg.c
@@ -15183,15 +15183,19 @@ static struct tg_geom *geom_copy(const struct tg_geom *geom) {
         geom2->m = geom->m;
         break;
     case TG_LINESTRING:
-        geom2->line = tg_line_copy(geom->line);
-        if (!geom2->line) {
-            goto fail;
+        if (geom->line) {
+            geom2->line = tg_line_copy(geom->line);
+            if (!geom2->line) {
+                goto fail;
+            }
         }
         break;
     case TG_POLYGON:
-        geom2->poly = tg_poly_copy(geom->poly);
-        if (!geom2->poly) {
-            goto fail;
+        if (geom->poly) {
+            geom2->poly = tg_poly_copy(geom->poly);
+            if (!geom2->poly) {
+                goto fail;
+            }
         }
         break;
     case TG_MULTIPOINT:
-- 
2.43.0


From cfc76604c4b349a3c234093cd372f1b4abf17814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 11/25] fix: convexity of rings ignored the corner at the first
 point

The corner where a ring closes, and every corner next to a repeated point, was
calculated from a zero-length edge. A ring with its only reflex corner there
was taken for convex, and segments leaving it for contained. A clockwise convex
ring starting with collinear points was taken for concave.
---
 tg.c | 51 +++++++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/tg.c b/tg.c
index 433d76d..b7b4073 100644
--- a/tg.c
+++ b/tg.c
@@ -1911,9 +1911,12 @@ static struct tg_rect process_points(const struct tg_point *points,
         return rect;
     }
     
-    struct tg_point a, b, c;
+    struct tg_point a, b;
     bool concave = false;
     int dir = 0;
+    // first and previous edges that are not zero-length
+    struct tg_point edge0 = { 0 };
+    struct tg_point edge = { 0 };
     double cwc = 0;
     int ixspread = index ? index->spread : 0;
 
@@ -1930,22 +1933,12 @@ static struct tg_rect process_points(const struct tg_point *points,
     #define step_gather_abc_nowrap() { \
         a = points[i]; \
         b = points[i+1]; \
-        c = points[i+2]; \
         ring_points[i] = a; \
     }
     
     #define step_gather_abc_wrap() { \
         a = points[i]; \
-        if (i < npoints-2) { \
-            b = points[i+1]; \
-            c = points[i+2]; \
-        } else if (i == npoints-1) { \
-            b = points[0]; \
-            c = points[1]; \
-        } else { \
-            b = points[i+1]; \
-            c = points[0]; \
-        } \
+        b = points[i < npoints-1 ? i+1 : 0]; \
         ring_points[i] = a; \
     }
     
@@ -1979,22 +1972,26 @@ static struct tg_rect process_points(const struct tg_point *points,
     }
 
     #define step_calc_concave(label) { \
-        double z_cross_product = (b.x-a.x)*(c.y-b.y) - (b.y-a.y)*(c.x-b.x); \
-        if (dir == 0) { \
-            dir = z_cross_product < 0 ? -1 : 1; \
-        } else if (z_cross_product < 0) { \
-            if (dir == 1) { \
-                concave = true; \
-                i++; \
-                goto label; \
-            } \
-        } else if (z_cross_product > 0) { \
-            if (dir == -1) { \
-                concave = true; \
-                i++; \
-                goto label; \
+        struct tg_point next = { b.x-a.x, b.y-a.y }; \
+        if (next.x != 0 || next.y != 0) { \
+            step_calc_turn(next); \
+            edge = next; \
+            if (edge0.x == 0 && edge0.y == 0) { \
+                edge0 = next; \
             } \
         } \
+        if (concave) { \
+            i++; \
+            goto label; \
+        } \
+    }
+
+    // Check the direction of the turn from the previous edge to the next one.
+    #define step_calc_turn(next) { \
+        double z_cross_product = edge.x*(next).y - edge.y*(next).x; \
+        int ndir = z_cross_product < 0 ? -1 : z_cross_product > 0 ? 1 : 0; \
+        concave |= ndir * dir < 0; \
+        dir = ndir ? ndir : dir; \
     }
 
     // The following code is a large loop that scans over every point and 
@@ -2063,6 +2060,8 @@ static struct tg_rect process_points(const struct tg_point *points,
             step_calc_concave(lconcave);
         }
     }
+    // The turn from the last edge back to the first.
+    step_calc_turn(edge0);
 lconcave:
     // Concave section
     if (!index) {
-- 
2.43.0


From db8d5513dbcd28f3cca71a594fc9362aabdf24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:39 +0000
Subject: [PATCH 12/25] fix: the last index rectangle of an open ring missed
 its closing segment

---
 tg.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index b7b4073..0c324f8 100644
--- a/tg.c
+++ b/tg.c
@@ -1897,8 +1897,8 @@ static void fill_in_upper_index_levels(struct index *index) {
 (struct tg_ring*)(&(char[sizeof(struct tg_ring)+sizeof(struct tg_point)*5]){0})
 
 static struct tg_rect process_points(const struct tg_point *points,
-    int npoints, struct tg_point *ring_points, struct index *index,
-    bool *convex, bool *clockwise, double *area)
+    int npoints, bool closed, struct tg_point *ring_points, 
+    struct index *index, bool *convex, bool *clockwise, double *area)
 {
     struct tg_rect rect = { 0 };
     if (npoints < 2) {
@@ -2099,6 +2099,10 @@ lconcave:
         // Fill in the final indexing rectangles
         if (r != index->levels[index->nlevels-1].nrects) {
             // There's one last index rectangle remaining.
+            if (closed) {
+                // The last segment ends at the first point.
+                rect_inflate_point(&spreadrect, &points[0]);
+            }
             inflate_mbr_and_copy_next_index_rect();
         }
         fill_in_upper_index_levels(index);
@@ -2210,8 +2214,8 @@ static struct tg_ring *series_new(const struct tg_point *points, int npoints,
         fill_index_struct(ring->index, nlevels, nsegs, ixspread, ixsize);
     }
 
-    ring->rect = process_points(points, npoints, ring->points, ring->index,
-        &ring->convex, &ring->clockwise, &ring->area);
+    ring->rect = process_points(points, npoints, closed, ring->points, 
+        ring->index, &ring->convex, &ring->clockwise, &ring->area);
     
     // Fill extra point to ensure perfect close.
     ring->points[npoints] = ring->points[0];
-- 
2.43.0


From 51d2d5653521e6bea0cd030504285475dbd0a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:17 +0000
Subject: [PATCH 13/25] fix: y-stripes of rings whose area or perimeter
 overflows

---
 tg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tg.c b/tg.c
index 0c324f8..6e7e5a4 100644
--- a/tg.c
+++ b/tg.c
@@ -1691,6 +1691,8 @@ static int ystripe_at(double y, double ymin, double height, int nstripes) {
 
 static bool process_ystripes(struct tg_ring *ring) {
     double score = tg_ring_polsby_popper_score(ring);
+    // The score may not be a number when its area or perimeter overflows.
+    score = score > 1 ? 1 : score > 0 ? score : 0;
     int nstripes = ring->nsegs * score;
     nstripes = fmax0(nstripes, 32);
     double height = ring->rect.max.y - ring->rect.min.y;
-- 
2.43.0


From 6d5572ec56c3a1ff7a317c1eff9bb6e971c08fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 14/25] fix: hilbert position of points outside or without
 extent of their rect

---
 tg.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index 6e7e5a4..58cbba5 100644
--- a/tg.c
+++ b/tg.c
@@ -4519,9 +4519,16 @@ static uint32_t hilbert_xy_to_index(uint32_t x, uint32_t y) {
     return (i1 << 1) | i0;
 }
 
+// Returns the 16-bit position of x between min and max. The quotient may not be
+// a number when min and max are equal, or too far apart for a double.
+static uint32_t hilbert_coord(double x, double min, double max) {
+    double pos = (x - min) / (max - min);
+    return pos >= 1 ? 0xFFFF : pos > 0 ? (uint32_t)(pos * 0xFFFF) : 0;
+}
+
 uint32_t tg_point_hilbert(struct tg_point point, struct tg_rect rect) {
-    uint32_t ix = ((point.x - rect.min.x) / (rect.max.x - rect.min.x)) * 0xFFFF;
-    uint32_t iy = ((point.y - rect.min.y) / (rect.max.y - rect.min.y)) * 0xFFFF;
+    uint32_t ix = hilbert_coord(point.x, rect.min.x, rect.max.x);
+    uint32_t iy = hilbert_coord(point.y, rect.min.y, rect.max.y);
     return hilbert_xy_to_index(ix, iy);
 }
 
-- 
2.43.0


From 935d71e3eb8da9004968053424aa8fcac6304ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:59 +0000
Subject: [PATCH 15/25] fix: tg_geobin_fullrect wrote past its outputs for
 invalid dimensions

---
 tg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tg.c b/tg.c
index 58cbba5..95733c5 100644
--- a/tg.c
+++ b/tg.c
@@ -15901,11 +15901,14 @@ int tg_geobin_fullrect(const uint8_t *geobin, size_t len, double min[4],
             case 2001: dims = 3; break;
             case 3001: dims = 4; break;
             }
-            if (dims > 0 && len >= 5+8*dims) {
-                memcpy(min, geobin+5, 8*dims);
-                memcpy(max, geobin+5, 8*dims);
+            if (len < 5+8*dims) {
+                return 0;
             }
-        } else if (geobin[0] != 0x01 && len >= 2+8*(size_t)geobin[1]*2){
+            memcpy(min, geobin+5, 8*dims);
+            memcpy(max, geobin+5, 8*dims);
+        } else if (geobin[0] != 0x01 && geobin[1] >= 2 && geobin[1] <= 4 &&
+            len >= 2+8*(size_t)geobin[1]*2)
+        {
             // Read MBR
             dims = geobin[1];
             memcpy(min, geobin+2, 8*dims);
-- 
2.43.0


From 605c25f5b5d848bf23d63cef1d8afd9ec2a2984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:16 +0000
Subject: [PATCH 16/25] fix: feature count and allocation failure of GeoBIN
 feature collections

---
 tg.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 95733c5..3b00a86 100644
--- a/tg.c
+++ b/tg.c
@@ -15556,9 +15556,14 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
         uint32_t nfeats;
         memcpy(&nfeats, geobin+i, 4);
         i += 4;
+        if (nfeats > len-i) {
+            // each feature takes at least one byte
+            goto invalid;
+        }
         struct tg_geom **feats = tg_malloc(nfeats*sizeof(struct tg_geom*));
         if (!feats) {
-            return 0;
+            *g = 0;
+            return PARSE_FAIL;
         }
         memset(feats, 0, nfeats*sizeof(struct tg_geom*));
         struct tg_geom *feat = 0;
-- 
2.43.0


From c9dbbccca16eb26626d442f73bde6d1d45f9d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:53 +0000
Subject: [PATCH 17/25] fix: WKT depth limit counted all parentheses instead of
 nested ones

---
 tg.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 3b00a86..3118c34 100644
--- a/tg.c
+++ b/tg.c
@@ -12040,7 +12040,9 @@ static long wkt_balance_coords(const char *wkt, long len, long i) {
     for (; i < len; i++) {
         if (wkt[i] == '(') {
             depth++;
-            maxdepth++;
+            if (depth > maxdepth) {
+                maxdepth = depth;
+            }
         } else if (wkt[i] == ')') {
             depth--;
             if (depth == 0) {
-- 
2.43.0


From 5f3670902c09e024b6088af031851f39f91e8f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:48 +0000
Subject: [PATCH 18/25] fix: multi-geometries without positions were given z
 and m dimensions

---
 tg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tg.c b/tg.c
index 3118c34..3136812 100644
--- a/tg.c
+++ b/tg.c
@@ -8337,6 +8337,7 @@ static struct tg_geom *parse_geojson_multipoint(struct json json,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -8387,6 +8388,7 @@ static struct tg_geom *parse_geojson_multilinestring(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -8446,6 +8448,7 @@ static struct tg_geom *parse_geojson_multipolygon(struct json json,
         val0 = json_next(val0);
     }
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
@@ -12428,6 +12431,7 @@ static struct tg_geom *parse_wkt_multipoint(const char *wkt, long len,
     const struct tg_point *points = (struct tg_point*)posns.data;
     int npoints = posns.len/2;
     switch (dims) {
+    case 0: // no positions
     case 2: 
         geom = tg_geom_new_multipoint(points, npoints);
         break;
@@ -12503,6 +12507,7 @@ static struct tg_geom *parse_wkt_multilinestring(const char *wkt, long len,
         }
     }
     switch (dims) {
+    case 0: // no positions
     case 2:
         geom = tg_geom_new_multilinestring(
                 (struct tg_line const*const*)lines.data, lines.len);
@@ -12588,6 +12593,7 @@ static struct tg_geom *parse_wkt_multipolygon(const char *wkt, long len,
         }
     }
     switch (dims) {
+    case 0: // no positions
     case 2:
         geom = tg_geom_new_multipolygon(
                 (struct tg_poly const*const*)polys.data, polys.len);
-- 
2.43.0


From 76f2f8681fb7ce97eec190b93a7162a6e0e32b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:22 +0000
Subject: [PATCH 19/25] fix: empty children of WKB multi-geometries crashed
 writers or became a point

---
 tg.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/tg.c b/tg.c
index 3136812..c99cc3f 100644
--- a/tg.c
+++ b/tg.c
@@ -13614,6 +13614,12 @@ static size_t parse_wkb_multipoint(const uint8_t *wkb, size_t len, size_t i,
             point = NULL;
             goto fail;
         }
+        if (point->head.type == TG_POINT && tg_geom_is_empty(point)) {
+            // an empty child has no positions, and no z or m
+            tg_geom_free(point);
+            point = NULL;
+            continue;
+        }
         if (!wkb_type_match(point, TG_POINT, z, m)) {
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
@@ -13693,6 +13699,12 @@ static size_t parse_wkb_multilinestring(const uint8_t *wkb, size_t len,
             child = NULL;
             goto fail;
         }
+        if (child->head.type == TG_LINESTRING && tg_geom_is_empty(child)) {
+            // an empty child has no positions, and no z or m
+            tg_geom_free(child);
+            child = NULL;
+            continue;
+        }
         if (!wkb_type_match(child, TG_LINESTRING, z, m)) {
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
@@ -13774,6 +13786,12 @@ static size_t parse_wkb_multipolygon(const uint8_t *wkb, size_t len,
             child = NULL;
             goto fail;
         }
+        if (child->head.type == TG_POLYGON && tg_geom_is_empty(child)) {
+            // an empty child has no positions, and no z or m
+            tg_geom_free(child);
+            child = NULL;
+            continue;
+        }
         if (!wkb_type_match(child, TG_POLYGON, z, m)) {
             gerr = make_parse_error(wkb_invalid_child_type());
             goto fail;
-- 
2.43.0


From c8e63c4197f0bba8a9cbc53048f107d6b22a2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 20/25] fix: escaped "id" and "properties" keys were written
 twice

---
 tg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tg.c b/tg.c
index c99cc3f..49acf27 100644
--- a/tg.c
+++ b/tg.c
@@ -11773,13 +11773,13 @@ static void write_base_geom_geojson(const struct tg_geom *geom,
             struct json key = json_first(fjson);
             struct json val = json_next(key);
             while (json_exists(key)) {
-                if (json_raw_compare(key, "\"id\"") != 0) {
+                if (json_string_compare(key, "id") != 0) {
                     write_char(wr, ',');
                     write_stringn(wr, json_raw(key), json_raw_length(key));
                     write_char(wr, ':');
                     write_stringn(wr, json_raw(val), json_raw_length(val));
                     if (!wrote_props && 
-                        json_raw_compare(key, "\"properties\"") == 0)
+                        json_string_compare(key, "properties") == 0)
                     {
                         wrote_props = true;
                     }
-- 
2.43.0


From 79cb61edf0b67c7ccdf1ce72e5e8d556d979cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:35 +0000
Subject: [PATCH 21/25] fix: segment search with one index swapped the operands
 of the predicate

---
 tg.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 49acf27..c62fd76 100644
--- a/tg.c
+++ b/tg.c
@@ -2490,7 +2490,10 @@ struct ring_ring_iter_ctx {
 
 static bool ring_ring_iter(struct tg_segment seg, int index, void *udata) {
     struct ring_ring_iter_ctx *ctx = udata;
-    if (tg_segment_intersects_segment(seg, ctx->seg)) {
+    // Keep the order of the operands, no matter which one has the index.
+    if (ctx->swapped ? tg_segment_intersects_segment(ctx->seg, seg) :
+                       tg_segment_intersects_segment(seg, ctx->seg))
+    {
         bool ok = ctx->swapped ? 
             ctx->iter(ctx->seg, ctx->index, seg, index, ctx->udata):
             ctx->iter(seg, index, ctx->seg, ctx->index, ctx->udata);
-- 
2.43.0


From b9097fbb932ff8d1332ec32af8edbebb5edc864d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:39 +0000
Subject: [PATCH 22/25] fix: truncated GeoBIN features leaked their error and
 reported the JSON instead

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index c62fd76..1bd96d4 100644
--- a/tg.c
+++ b/tg.c
@@ -15623,7 +15623,7 @@ static size_t parse_geobin(const uint8_t *geobin, size_t len, size_t i,
     } else {
         i = parse_wkb(geobin, len, i, depth, ix, &geom);
     }
-    if (i == PARSE_FAIL || !geom) {
+    if (i == PARSE_FAIL || !geom || tg_geom_error(geom)) {
         *g = geom;
         return PARSE_FAIL;
     }
-- 
2.43.0


From 5ba747649a90ea8c179ca3430e3105cc9aaf7f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 23/25] fix: subnormal coordinates were written as 0 in WKT and
 GeoJSON

---
 tg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tg.c b/tg.c
index 1bd96d4..9ce2e6d 100644
--- a/tg.c
+++ b/tg.c
@@ -11350,7 +11350,7 @@ FP_EXTERN bool fp_atof(const char *data, size_t len, float *x) {
 #endif
 
 static void write_string_double(struct writer *wr, double f) {
-    if (!isnormal(f)) {
+    if (!isfinite(f) || f == 0) {
         write_char(wr, '0');
         return;
     }
-- 
2.43.0


From de18321cb45933759b6059095668480603b06b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:01 +0000
Subject: [PATCH 24/25] fix: WKB length of a series with 134217728 or more
 points overflowed

---
 tg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tg.c b/tg.c
index 9ce2e6d..4015924 100644
--- a/tg.c
+++ b/tg.c
@@ -14064,7 +14064,7 @@ static void write_posn_wkb_4(struct writer *wr, struct tg_point posn,
 static int write_ring_points_wkb(struct writer *wr, const struct tg_ring *ring)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*16;
+    size_t needed = (size_t)ring->npoints*16;
 #if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
     if (wr->count+needed <= wr->n) {
         memcpy(wr->dst+wr->count, ring->points, needed);
@@ -14086,7 +14086,7 @@ static int write_ring_points_wkb_3(struct writer *wr,
     const struct tg_ring *ring, const double *coords, int ncoords)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*24;
+    size_t needed = (size_t)ring->npoints*24;
     if (wr->count >= wr->n) {
         wr->count += needed;
     } else {
@@ -14104,7 +14104,7 @@ static int write_ring_points_wkb_4(struct writer *wr,
     const struct tg_ring *ring, const double *coords, int ncoords)
 {
     write_uint32le(wr, ring->npoints);
-    size_t needed = ring->npoints*32;
+    size_t needed = (size_t)ring->npoints*32;
     if (wr->count >= wr->n) {
         wr->count += needed;
     } else {
-- 
2.43.0


From 8732907a1ede23d0225548b423dbf94e26b10468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:12 +0000
Subject: [PATCH 25/25] fix: return null when cloning a pinned component fails

Constructors clone their components. A component pinned with
tg_geom_setnoheap is copied instead, and when that allocation failed the
constructor returned a geometry with a null ring, line or child. A polygon
was also made with null holes, which is documented to return null.
---
 tg.c | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/tg.c b/tg.c
index 4015924..422eb4b 100644
--- a/tg.c
+++ b/tg.c
@@ -3788,6 +3788,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
     poly->head.base = BASE_POLY;
     poly->head.type = TG_POLYGON;
     poly->exterior = tg_ring_clone(exterior);
+    if (!poly->exterior) {
+        goto fail;
+    }
     if (nholes > 0) {
         poly->holes = tg_malloc(sizeof(struct tg_ring*)*nholes);
         if (!poly->holes) {
@@ -3797,6 +3800,9 @@ struct tg_poly *tg_poly_new(const struct tg_ring *exterior,
         memset(poly->holes, 0, sizeof(struct tg_ring*)*poly->nholes);
         for (int i = 0; i < poly->nholes; i++) {
             poly->holes[i] = tg_ring_clone(holes[i]);
+            if (!poly->holes[i]) {
+                goto fail;
+            }
         }
     }
     return poly;
@@ -4721,6 +4727,10 @@ struct tg_geom *tg_geom_new_multilinestring(const struct tg_line *const lines[],
     if (!geom) return NULL;
     for (int i = 0; i < geom->multi->ngeoms; i++) {
         geom->multi->geoms[i] = (struct tg_geom*)tg_line_clone(lines[i]);
+        if (lines[i] && !geom->multi->geoms[i]) {
+            tg_geom_free(geom);
+            return NULL;
+        }
     }
     return multi_geom_inflate_rect(geom);
 }
@@ -4748,6 +4758,10 @@ struct tg_geom *tg_geom_new_multipolygon(const struct tg_poly *const polys[],
     if (!geom) return NULL;
     for (int i = 0; i < geom->multi->ngeoms; i++) {
         geom->multi->geoms[i] = (struct tg_geom*)tg_poly_clone(polys[i]);
+        if (polys[i] && !geom->multi->geoms[i]) {
+            tg_geom_free(geom);
+            return NULL;
+        }
     }
     return multi_geom_inflate_rect(geom);
 }
@@ -4775,6 +4789,10 @@ struct tg_geom *tg_geom_new_geometrycollection(
     if (!geom) return NULL;
     for (int i = 0; i < geom->multi->ngeoms; i++) {
         geom->multi->geoms[i] = tg_geom_clone(geoms[i]);
+        if (geoms[i] && !geom->multi->geoms[i]) {
+            tg_geom_free(geom);
+            return NULL;
+        }
     }
     return multi_geom_inflate_rect(geom);
 }
@@ -4823,6 +4841,10 @@ struct tg_geom *tg_geom_new_linestring_z(const struct tg_line *line,
     struct tg_geom *geom = geom_new(TG_LINESTRING);
     if (!geom) return NULL;
     geom->line = tg_line_clone(line);
+    if (line && !geom->line) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z);
 }
 
@@ -4841,6 +4863,10 @@ struct tg_geom *tg_geom_new_linestring_m(const struct tg_line *line,
     struct tg_geom *geom = geom_new(TG_LINESTRING);
     if (!geom) return NULL;
     geom->line = tg_line_clone(line);
+    if (line && !geom->line) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_M);
 }
 
@@ -4859,6 +4885,10 @@ struct tg_geom *tg_geom_new_linestring_zm(const struct tg_line *line,
     struct tg_geom *geom = geom_new(TG_LINESTRING);
     if (!geom) return NULL;
     geom->line = tg_line_clone(line);
+    if (line && !geom->line) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z|HAS_M);
 }
 
@@ -4877,6 +4907,10 @@ struct tg_geom *tg_geom_new_polygon_z(const struct tg_poly *poly,
     struct tg_geom *geom = geom_new(TG_POLYGON);
     if (!geom) return NULL;
     geom->poly = tg_poly_clone(poly);
+    if (poly && !geom->poly) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z);
 }
 
@@ -4895,6 +4929,10 @@ struct tg_geom *tg_geom_new_polygon_m(const struct tg_poly *poly,
     struct tg_geom *geom = geom_new(TG_POLYGON);
     if (!geom) return NULL;
     geom->poly = tg_poly_clone(poly);
+    if (poly && !geom->poly) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_M);
 }
 
@@ -4913,6 +4951,10 @@ struct tg_geom *tg_geom_new_polygon_zm(const struct tg_poly *poly,
     struct tg_geom *geom = geom_new(TG_POLYGON);
     if (!geom) return NULL;
     geom->poly = tg_poly_clone(poly);
+    if (poly && !geom->poly) {
+        tg_geom_free(geom);
+        return NULL;
+    }
     return fill_extra_coords(geom, coords, ncoords, HAS_Z|HAS_M);
 }
 
-- 
2.43.0

