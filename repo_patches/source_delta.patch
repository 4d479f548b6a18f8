From 613fef0949c32118e379743160760bdcc8f55097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:18 +0000
Subject: [PATCH 01/18] fix: Colorize dabs on light pixels: no 16 bit overflow
 and no division by zero

The luminance difference does not fit an int16_t for pure white against pure
black, and float rounding can leave the recomputed luminance just outside of
0..2^15, which made the clipping step divide by zero (SIGFPE).
---
 brushmodes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index f0c68b6..cd88afc 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -209,14 +209,16 @@ set_rgb16_lum_from_rgb16(const uint16_t topr,
     // temporary representation inflation.
     const uint16_t botlum = LUMA(*botr, *botg, *botb) / (1<<15);
     const uint16_t toplum = LUMA(topr, topg, topb) / (1<<15);
-    const int16_t diff = botlum - toplum;
+    const int32_t diff = (int32_t)botlum - (int32_t)toplum;
     int32_t r = topr + diff;
     int32_t g = topg + diff;
     int32_t b = topb + diff;
 
     // Spec: ClipColor()
     // Clip out of band values
+    // (rounding can leave lum just outside of the valid range)
     int32_t lum = LUMA(r, g, b) / (1<<15);
+    lum = CLAMP(lum, 0, (1<<15));
     int32_t cmin = MIN3(r, g, b);
     int32_t cmax = MAX3(r, g, b);
     if (cmin < 0) {
-- 
2.43.0


From 1cf23a0573f2b17b6920620ccecaa2ddde0ac421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:19 +0000
Subject: [PATCH 02/18] fix: Posterize must keep premultiplied colours within
 their alpha

---
 brushmodes.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/brushmodes.c b/brushmodes.c
index cd88afc..1251202 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -149,6 +149,11 @@ void draw_dab_pixels_BlendMode_Posterize (uint16_t * mask,
       uint32_t post_r = (1<<15) * ROUND(r * posterize_num) / posterize_num;
       uint32_t post_g = (1<<15) * ROUND(g * posterize_num) / posterize_num;
       uint32_t post_b = (1<<15) * ROUND(b * posterize_num) / posterize_num;
+
+      // rounding up must not lift a (premultiplied) channel above its alpha
+      post_r = MIN(post_r, rgba[3]);
+      post_g = MIN(post_g, rgba[3]);
+      post_b = MIN(post_b, rgba[3]);
       
       uint32_t opa_a = mask[0]*(uint32_t)opacity/(1<<15); // topAlpha
       uint32_t opa_b = (1<<15)-opa_a; // bottomAlpha
-- 
2.43.0


From 7d720262f51c43b0a74b671f6c2e881d87427fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:09 +0000
Subject: [PATCH 03/18] fix: LockAlpha_Paint must not compute 0/0 on nearly
 transparent pixels

---
 brushmodes.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/brushmodes.c b/brushmodes.c
index 1251202..e54d6cf 100644
--- a/brushmodes.c
+++ b/brushmodes.c
@@ -471,7 +471,9 @@ void draw_dab_pixels_BlendMode_LockAlpha_Paint (uint16_t * mask,
         rgba[2] = (opa_a*color_b + opa_b*rgba[2])/(1<<15);
         continue;
       }
-      float fac_a = (float)opa_a / (opa_a + opa_b * rgba[3] / (1<<15));
+      // both terms can round down to zero for nearly transparent pixels
+      const uint32_t opa_sum = opa_a + opa_b * rgba[3] / (1<<15);
+      float fac_a = opa_sum ? (float)opa_a / opa_sum : 0.0f;
       float fac_b = 1.0 - fac_a;
       float spectral_b[10] = {0};
       rgb_to_spectral((float)rgba[0] / rgba[3], (float)rgba[1] / rgba[3], (float)rgba[2] / rgba[3], spectral_b);
-- 
2.43.0


From ce213495743870528e09579e59a47b2a1eb8d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 04/18] fix: free the payload of the operations that are still
 queued when a queue is freed

---
 fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fifo.c b/fifo.c
index 1d71ab7..3eb365f 100644
--- a/fifo.c
+++ b/fifo.c
@@ -59,7 +59,8 @@ void fifo_free(struct fifo* queue, FifoUserFreeFunction user_free)
     while ((item = queue->first) != NULL)
     {
         queue->first = item->next;
-        user_free(item);
+        user_free(item->payload);
+        free(item);
     }
     free(queue);
 }
-- 
2.43.0


From 4f90445c384630a1b35a6ef960cc45894cfe93f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 05/18] fix: do not abort when an emptied tile is queued again
 while every tile is dirty

---
 operationqueue.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/operationqueue.c b/operationqueue.c
index 7cbe890..3d6a0e2 100644
--- a/operationqueue.c
+++ b/operationqueue.c
@@ -199,8 +199,10 @@ operation_queue_add(OperationQueue *self, TileIndex index, OperationDataDrawDab
            // Prune duplicate tiles that cause us to almost exceed max
            self->dirty_tiles_n = remove_duplicate_tiles(self->dirty_tiles, self->dirty_tiles_n);
        }
-       assert(self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2);
-       self->dirty_tiles[self->dirty_tiles_n++] = index;
+       // If the list is full without duplicates, it already has every tile in the map
+       if (self->dirty_tiles_n < self->tile_map->size*2*self->tile_map->size*2) {
+           self->dirty_tiles[self->dirty_tiles_n++] = index;
+       }
     }
     fifo_push(op_queue, (void *)op);
 }
-- 
2.43.0


From 0305d18c2e5155a19f6709bd9070110d424fbd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 06/18] fix: an invisible dab must not drop the dirty area of
 the dabs drawn before it

draw_dab overwrote the number of dirtied bounding boxes on every call, so a dab
that did not modify the surface (or used fewer symmetry dabs) reset it and
end_atomic no longer reported the area of the earlier dabs.
---
 mypaint-tiled-surface.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index b19c4dd..41c1c12 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -794,7 +794,8 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             break;
         }
     }
-    self->num_bboxes_dirtied = MIN(self->num_bboxes, num_bboxes_used);
+    // Keep what earlier dabs of this transaction have dirtied
+    self->num_bboxes_dirtied = MIN(self->num_bboxes, MAX(self->num_bboxes_dirtied, num_bboxes_used));
     return surface_modified;
 #undef DDI
 }
@@ -949,6 +950,7 @@ mypaint_tiled_surface_init(MyPaintTiledSurface *self,
     self->threadsafe_tile_requests = FALSE;
 
     self->num_bboxes = NUM_BBOXES_DEFAULT;
+    self->num_bboxes_dirtied = 0;
     self->bboxes = self->default_bboxes;
     memset(self->bboxes, 0, sizeof(MyPaintRectangle) * NUM_BBOXES_DEFAULT);
 
-- 
2.43.0


From 629e06298ecd749119f56a5d6f43e4e62fc85828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:42 +0000
Subject: [PATCH 07/18] fix: end_atomic must not write before an empty array of
 rectangles

With room for zero rectangles the merge index became -1.
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 41c1c12..d4bc75e 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -120,7 +120,7 @@ mypaint_tiled_surface_end_atomic(MyPaintTiledSurface *self, MyPaintRectangles *r
 
     operation_queue_clear_dirty_tiles(self->operation_queue);
 
-    if (roi) {
+    if (roi && roi->num_rectangles > 0) {
         const int roi_rects = roi->num_rectangles;
         const int num_dirty = self->num_bboxes_dirtied;
         // Clear out the input rectangles that will be overwritten
-- 
2.43.0


From 2c8783aa1ed86811afe3f3a73f186c8a6ba56814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:58 +0000
Subject: [PATCH 08/18] fix: keep the bounding box index of snowflake symmetry
 dabs inside the array

When the bounding box array could not be enlarged, the last reflected dabs of a
snowflake symmetry with 32 or more lines used the rectangle after the array.
---
 mypaint-tiled-surface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index d4bc75e..2e17a9a 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -763,7 +763,7 @@ int draw_dab (MyPaintSurface *surface, float x, float y,
             for (int dab_count = 0; dab_count < symm.num_lines; dab_count++) {
                 // If the number of bboxes cannot fit all snowflake dabs, use half for the rotational dabs
                 // and the other half for the reflected dabs. This is not always optimal, but seldom bad.
-                const int bbox_idx = offset + MIN(roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
+                const int bbox_idx = MIN(offset + roundf(dab_count / dabs_per_bbox), num_bboxes - 1);
                 mypaint_transform_point(&matrices[base_idx + dab_count], x, y, &x_out, &y_out);
                 DDI(x_out, y_out, base_angle - dab_count * rot_angle, bbox_idx);
             }
-- 
2.43.0


From 7911eee0340106babf6e83dc1a40e1303112620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:39 +0000
Subject: [PATCH 09/18] fix: fill new fixed tiled surfaces with valid white
 pixels

Channels range from 0 to 1<<15; 65535 is about twice full opacity.
---
 mypaint-fixed-tiled-surface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 287e324..0bba122 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -123,7 +123,10 @@ mypaint_fixed_tiled_surface_new(int width, int height)
         free(self);
         return NULL;
     }
-    memset(buffer, 255, buffer_size);
+    // Opaque white
+    for (size_t i = 0; i < buffer_size/sizeof(uint16_t); i++) {
+        buffer[i] = 1<<15;
+    }
 
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
-- 
2.43.0


From d4a70428eec886febeb11589700846198bcf0428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:39 +0000
Subject: [PATCH 10/18] fix: clean up when the memory of a fixed tiled surface
 cannot be allocated

---
 mypaint-fixed-tiled-surface.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 0bba122..6d4c433 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -120,6 +120,7 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
     if (!buffer) {
         fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", buffer_size);
+        mypaint_tiled_surface_destroy(&self->parent);
         free(self);
         return NULL;
     }
@@ -131,6 +132,13 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     self->tile_buffer = buffer;
     self->tile_size = tile_size;
     self->null_tile = (uint16_t *)malloc(tile_size);
+    if (!self->null_tile) {
+        fprintf(stderr, "CRITICAL: unable to allocate enough memory: %zu bytes", tile_size);
+        mypaint_tiled_surface_destroy(&self->parent);
+        free(buffer);
+        free(self);
+        return NULL;
+    }
     self->tiles_width = tiles_width;
     self->tiles_height = tiles_height;
     self->height = height;
-- 
2.43.0


From 4e62c715d5eb62b69d8b20b1d2fcbcc809852a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:39 +0000
Subject: [PATCH 11/18] fix: size computations of large fixed tiled surfaces

int and float arithmetic made the assertions fail for sizes that are fine.
---
 mypaint-fixed-tiled-surface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mypaint-fixed-tiled-surface.c b/mypaint-fixed-tiled-surface.c
index 6d4c433..403001b 100644
--- a/mypaint-fixed-tiled-surface.c
+++ b/mypaint-fixed-tiled-surface.c
@@ -108,14 +108,14 @@ mypaint_fixed_tiled_surface_new(int width, int height)
     // MyPaintSurface vfuncs
     self->parent.parent.destroy = free_simple_tiledsurf;
 
-    const int tiles_width = ceil((float)width / tile_size_pixels);
-    const int tiles_height = ceil((float)height / tile_size_pixels);
+    const int tiles_width = (width - 1) / tile_size_pixels + 1;
+    const int tiles_height = (height - 1) / tile_size_pixels + 1;
     const size_t tile_size = tile_size_pixels * tile_size_pixels * 4 * sizeof(uint16_t);
-    const size_t buffer_size = tiles_width * tiles_height * tile_size;
+    const size_t buffer_size = (size_t)tiles_width * tiles_height * tile_size;
 
     assert(tile_size_pixels*tiles_width >= width);
     assert(tile_size_pixels*tiles_height >= height);
-    assert(buffer_size >= width*height*4*sizeof(uint16_t));
+    assert(buffer_size >= (size_t)width*height*4*sizeof(uint16_t));
 
     uint16_t * buffer = (uint16_t *)malloc(buffer_size);
     if (!buffer) {
-- 
2.43.0


From 79e24faca1bd77e3f70689985e61a0bedc5207c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 12/18] fix: address whole smudge buckets when getting and
 setting their state

The index was used as an offset into the array of floats, so neighbouring
buckets overlapped and the state set was not the state used for painting.
Negative indices are refused like too large ones.
---
 mypaint-brush.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 9533265..0c48472 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -459,8 +459,8 @@ mypaint_brush_set_smudge_bucket_state(
     float prev_r, float prev_g, float prev_b, float prev_a,
     float prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     bucket[SMUDGE_R] = r;
     bucket[SMUDGE_G] = g;
     bucket[SMUDGE_B] = b;
@@ -491,8 +491,8 @@ mypaint_brush_get_smudge_bucket_state(
     float* prev_r, float* prev_g, float* prev_b, float* prev_a,
     float* prev_color_recentness)
 {
-  if (self->num_buckets > bucket_index) {
-    float* bucket = &self->smudge_buckets[bucket_index];
+  if (bucket_index >= 0 && self->num_buckets > bucket_index) {
+    float* bucket = &self->smudge_buckets[bucket_index * SMUDGE_BUCKET_SIZE];
     *r = bucket[SMUDGE_R];
     *g = bucket[SMUDGE_G];
     *b = bucket[SMUDGE_B];
-- 
2.43.0


From 1c43049048f881734e4e3b7ceb31794d0fd0ba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 13/18] fix: clear the smudge buckets that were used when
 resetting a brush

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 0c48472..f1df612 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -159,7 +159,7 @@ brush_reset(MyPaintBrush *self)
       if (min_index != -1) {
         int max_index = self->max_bucket_used;
         size_t num_bytes = (max_index - min_index + 1) * sizeof(self->smudge_buckets[0]) * SMUDGE_BUCKET_SIZE;
-        memset(self->smudge_buckets + min_index, 0, num_bytes);
+        memset(self->smudge_buckets + min_index * SMUDGE_BUCKET_SIZE, 0, num_bytes);
         self->min_bucket_used = -1;
         self->max_bucket_used = -1;
       }
-- 
2.43.0


From 8576951634bfbe1247e61c5e82e7f66920e56a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 14/18] fix: count smudge buckets set from outside as used

Otherwise they are not cleared when the brush is reset.
---
 mypaint-brush.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index f1df612..2d602f9 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -470,6 +470,12 @@ mypaint_brush_set_smudge_bucket_state(
     bucket[PREV_COL_B] = prev_b;
     bucket[PREV_COL_A] = prev_a;
     bucket[PREV_COL_RECENTNESS] = prev_color_recentness;
+    if (self->min_bucket_used == -1 || self->min_bucket_used > bucket_index) {
+      self->min_bucket_used = bucket_index;
+    }
+    if (self->max_bucket_used < bucket_index) {
+      self->max_bucket_used = bucket_index;
+    }
     return TRUE;
   }
   return FALSE;
-- 
2.43.0


From 1e558a2835f2b28e2ec8845f8a89d86893c4f5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:47 +0000
Subject: [PATCH 15/18] fix: do not use uninitialised setting values in the
 first step of a new brush

The gridmap inputs are calculated from the setting values of the previous
step, which did not exist yet.
---
 mypaint-brush.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 2d602f9..6206ef1 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -214,6 +214,8 @@ mypaint_brush_new_with_buckets(int num_smudge_buckets)
     for (int i = 0; i < MYPAINT_BRUSH_SETTINGS_COUNT; i++) {
       self->settings[i] = mypaint_mapping_new(MYPAINT_BRUSH_INPUTS_COUNT);
     }
+    // The first simulation step uses some values before it calculates them
+    memset(self->settings_value, 0, sizeof(self->settings_value));
     self->rng = rng_double_new(1000);
     self->random_input = 0;
     self->print_inputs = FALSE;
-- 
2.43.0


From d87c17a56ace644dfc1ed0267ab4f0c1915aa4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:41 +0000
Subject: [PATCH 16/18] fix: drop the operations of a tile that cannot be
 requested

---
 mypaint-tiled-surface.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mypaint-tiled-surface.c b/mypaint-tiled-surface.c
index 2e17a9a..ca80e9e 100644
--- a/mypaint-tiled-surface.c
+++ b/mypaint-tiled-surface.c
@@ -579,6 +579,12 @@ process_tile(MyPaintTiledSurface *self, int tx, int ty)
     uint16_t * rgba_p = request_data.buffer;
     if (!rgba_p) {
         printf("Warning: Unable to get tile!\n");
+        // These operations are lost. Leaving the rest of them in the queue
+        // would keep the tile from being marked as dirty again.
+        while (op) {
+            free(op);
+            op = operation_queue_pop(self->operation_queue, tile_index);
+        }
         return;
     }
 
-- 
2.43.0


From 79533d3f4a1b65307d3e84cf176b3e2c668ca8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:53 +0000
Subject: [PATCH 17/18] fix: keep a valid zoom when ignoring an insane position

---
 mypaint-brush.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index 6206ef1..f011b26 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1341,7 +1341,7 @@ gboolean prepare_and_draw_dab (MyPaintBrush *self, MyPaintSurface * surface, gbo
       x = 0.0;
       y = 0.0;
       pressure = 0.0;
-      viewzoom = 0.0;
+      viewzoom = 1.0; // (must not be zero, positions are divided by it)
       viewrotation = 0.0;
       barrel_rotation = 0.0;
     }
-- 
2.43.0


From 9d592552fb61aadbcb8d9ba10d90e215d43a4c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:51 +0000
Subject: [PATCH 18/18] fix: refuse malformed curves and settings of a brush
 file

Loading a brush whose settings or inputs are not objects, or with a
curve that has a single point, more than 64 points, something else than
an array as a point, or descending x values aborted or crashed.
---
 mypaint-brush.c | 37 +++++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/mypaint-brush.c b/mypaint-brush.c
index f011b26..e5b7e6e 100644
--- a/mypaint-brush.c
+++ b/mypaint-brush.c
@@ -1569,6 +1569,30 @@ obj_get(json_object *self, const gchar *key, json_object **obj_out) {
 #endif
 }
 
+// Whether a list of points can be used with mypaint_mapping_set_n() and
+// mypaint_mapping_set_point(): not a single one, at most 64, with ascending x.
+static gboolean
+valid_mapping_points(json_object *points)
+{
+    const int n = json_object_array_length(points);
+    if (n == 1 || n > 64) {
+        return FALSE;
+    }
+    float previous_x = 0.0;
+    for (int i=0; i<n; i++) {
+        json_object *point = json_object_array_get_idx(points, i);
+        if (!json_object_is_type(point, json_type_array)) {
+            return FALSE;
+        }
+        const float x = json_object_get_double(json_object_array_get_idx(point, 0));
+        if (i > 0 && !(x >= previous_x)) {
+            return FALSE;
+        }
+        previous_x = x;
+    }
+    return TRUE;
+}
+
 static gboolean
 update_brush_setting_from_json_object(MyPaintBrush *self,
                                       char *setting_name,
@@ -1602,6 +1626,10 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
         fprintf(stderr, "Warning: No 'inputs' field for setting: %s\n", setting_name);
         return FALSE;
     }
+    if (!json_object_is_type(inputs, json_type_object)) {
+        fprintf(stderr, "Warning: Wrong inputs type for setting: %s\n", setting_name);
+        return FALSE;
+    }
     json_object_object_foreach(inputs, input_name, input_obj) {
         MyPaintBrushInput input_id = mypaint_brush_input_from_cname(input_name);
 
@@ -1616,6 +1644,11 @@ update_brush_setting_from_json_object(MyPaintBrush *self,
             return FALSE;
         }
 
+        if (!valid_mapping_points(input_obj)) {
+            fprintf(stderr, "Warning: Invalid mapping points for setting: %s\n", setting_name);
+            return FALSE;
+        }
+
         const int number_of_mapping_points = json_object_array_length(input_obj);
 
         mypaint_brush_set_mapping_n(self, setting_id, input_id, number_of_mapping_points);
@@ -1656,6 +1689,10 @@ update_brush_from_json_object(MyPaintBrush *self)
         fprintf(stderr, "Error: No 'settings' field for brush\n");
         return FALSE;
     }
+    if (!json_object_is_type(settings, json_type_object)) {
+        fprintf(stderr, "Error: Wrong type for settings\n");
+        return FALSE;
+    }
 
     gboolean updated_any = FALSE;
     json_object_object_foreach(settings, setting_name, setting_obj) {
-- 
2.43.0

