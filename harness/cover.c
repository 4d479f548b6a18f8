/* P09: a visible dab is queued for the tile of every pixel it can touch, with the
 * parameters it was drawn with, and that pixel is inside the dirty area */
#include "surf.h"
#ifndef LIM
#define LIM 100
#endif
#ifndef RMAX
#define RMAX 40
#endif
void vp_main(void)
{
  MyPaintTiledSurface s;
  memset(&s, 0, sizeof s);
  mypaint_tiled_surface_init(&s, no_tile_start, no_tile_end);
  mypaint_surface_begin_atomic(&s.parent);
  float x = vp_f("x", -LIM, LIM), y = vp_f("y", -LIM, LIM), radius = vp_f("radius", 0.1f, RMAX);
  Dab d = plain_dab(x, y, radius);
  switch (vp_choice("part", 8)) {   /* parallel parts of the input space */
  case 0: vp_assume(d.x < 0 && d.y < 0 && d.radius < RMAX / 2); break;
  case 1: vp_assume(d.x < 0 && d.y < 0 && d.radius >= RMAX / 2); break;
  case 2: vp_assume(d.x < 0 && d.y >= 0 && d.radius < RMAX / 2); break;
  case 3: vp_assume(d.x < 0 && d.y >= 0 && d.radius >= RMAX / 2); break;
  case 4: vp_assume(d.x >= 0 && d.y < 0 && d.radius < RMAX / 2); break;
  case 5: vp_assume(d.x >= 0 && d.y < 0 && d.radius >= RMAX / 2); break;
  case 6: vp_assume(d.x >= 0 && d.y >= 0 && d.radius < RMAX / 2); break;
  default: vp_assume(d.x >= 0 && d.y >= 0 && d.radius >= RMAX / 2); break;
  }
  int px = vp_i("px", -500, 500), py = vp_i("py", -500, 500);
  double cx = px + 0.5, cy = py + 0.5, h = (double)d.radius + 0.5;
  vp_assume(cx - d.x <= h && d.x - cx <= h);
  vp_assume(cy - d.y <= h && d.y - cy <= h);
  vp_assert(dab_draw(&s.parent, &d) != 0, "drawing a visible dab reports a modified surface");
  TileIndex t = {floordiv(px, TS), floordiv(py, TS)};
  OperationDataDrawDab *op = operation_queue_peek_first(s.operation_queue, t);
  vp_assert(op != NULL, "the dab is queued for the tile of every pixel it can touch");
  vp_assert(op->x == d.x && op->y == d.y && op->radius == d.radius, "the queued dab keeps its position and size");
  vp_assert(op == operation_queue_peek_last(s.operation_queue, t), "the dab is queued once per tile");
  MyPaintRectangle rect[1];
  MyPaintRectangles roi = {1, rect};
  mypaint_surface_end_atomic(&s.parent, &roi);
  vp_assert(roi.num_rectangles == 1, "one dirty rectangle");
  vp_assert(covers(&rect[0], px, py), "the dirty area contains every pixel the dab can touch");
  vp_obs_u("bx", rect[0].x); vp_obs_u("bw", rect[0].width);
}
