/* P26: the rectangles end_atomic reports contain everything that was drawn since begin_atomic */
#include "surf.h"
#ifndef K
#define K 2
#endif
#ifndef LIM
#define LIM 16
#endif
#ifndef NR
#define NR 102
#endif
void vp_main(void)
{
  MyPaintTiledSurface s;
  memset(&s, 0xA5, sizeof s);
  mypaint_tiled_surface_init(&s, no_tile_start, no_tile_end);
#ifdef SYM
  int type = vp_choice("type", 5), lines = vp_choice("lines", 64), fail = vp_choice("fail", 3);
  mypaint_tiled_surface_set_symmetry_state(&s, 1, 512.0f, 512.0f, 30.0f, type, lines);
  vp_fail_alloc(fail);
#endif
  mypaint_surface_begin_atomic(&s.parent);
  vp_fail_alloc(0);
  char *kn[] = {"kind0", "kind1", "kind2"};
  int drawn = 0;
  for (int k = 0; k < K; k++) {
#ifndef SYM
    float x = vp_f("x", 512 - LIM, 512 + LIM), y = vp_f("y", 512 - LIM, 512 + LIM), r = vp_f("radius", 0.2f, 8);
#else   /* book-keeping of the symmetry dabs: one coordinate varies */
    float x = 520 + vp_f("x", 0, LIM), y = 515.25f, r = 2.5f;
#endif
    Dab d = plain_dab(x, y, r);
    if (vp_choice(kn[k], K > 1 ? 2 : 1)) d.opaque = 0;
    int m = dab_draw(&s.parent, &d);
    vp_assert(m == (d.opaque != 0), "a dab reports whether it modified the surface");
    drawn += m;
  }
  TileIndex t = {0, 0};
  OperationDataDrawDab op, *p;
  int n = 0, which = -1;
  which = vp_choice("which", 100);
  while ((p = operation_queue_pop(s.operation_queue, t))) {
    if (n == which) op = *p;
    n++;
    free(p);
  }
  MyPaintRectangle rect[NR];
  MyPaintRectangle junk = {-5, 7000, 3, 9};
  for (int i = 0; i < NR; i++) rect[i] = junk;
  int cap = vp_choice("cap", 100);
  MyPaintRectangles roi = {cap, rect + 1};
  if (cap == 99) { mypaint_surface_end_atomic(&s.parent, NULL); return; }
  mypaint_surface_end_atomic(&s.parent, &roi);
  vp_assert(roi.num_rectangles >= 0 && roi.num_rectangles <= cap, "not more rectangles than the caller has room for");
  vp_assert(!memcmp(&rect[0], &junk, sizeof junk) && !memcmp(&rect[1 + cap], &junk, sizeof junk), "nothing is written outside the caller's array");
  if (!drawn) vp_assert(roi.num_rectangles == 0, "nothing drawn, nothing dirty");
  if (drawn && cap > 0 && which < n) {
    int px = vp_i("px", 412, 612), py = vp_i("py", 412, 612);
    double cx = px + 0.5, cy = py + 0.5, h = (double)op.radius + 0.5;
    double ox = op.x, oy = op.y;
    vp_assume(cx - ox <= h && ox - cx <= h);
    vp_assume(cy - oy <= h && oy - cy <= h);
    int c = 0;
    for (int i = 0; i < cap; i++)
      if (i < roi.num_rectangles) c |= covers(&rect[1 + i], px, py);
    vp_assert(c, "the dirty rectangles contain every pixel a dab drawn since begin_atomic can touch");
  }
  int reported = roi.num_rectangles;
  mypaint_surface_begin_atomic(&s.parent);
  MyPaintRectangles roi2 = {2, rect};
  mypaint_surface_end_atomic(&s.parent, &roi2);
  vp_assert(roi2.num_rectangles == 0, "a transaction that draws nothing reports nothing");
  mypaint_tiled_surface_destroy(&s);
  vp_no_leak("the surface");
  vp_obs_u("n", reported);
}
