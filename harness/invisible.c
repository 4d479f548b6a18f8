/* P10: a dab that cannot be seen changes nothing: no tile is touched, nothing is queued, nothing is dirty;
 * a visible one is reported and queued */
#include "surf.h"
static int tiles;
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r) { tiles++; r->buffer = NULL; }
void vp_main(void)
{
  MyPaintTiledSurface s;
  mypaint_tiled_surface_init(&s, start, no_tile_end);
  mypaint_surface_begin_atomic(&s.parent);
  Dab d;
#define F(f, lo, hi) d.f = vp_f(#f, lo, hi)
  int why = vp_choice("why", 5);
  F(x, 20, 40); F(y, 20, 40);
  F(radius, why == 0 ? -1000 : 0.1, why == 0 ? 0.0999 : 5);
  F(opaque, why == 1 ? -1000 : 0.001, why == 1 ? 0 : 10);
  F(hardness, why == 2 ? -1000 : 0.001, why == 2 ? 0 : 10);
  F(softness, why == 3 ? 1 : -1000, why == 3 ? 1000 : 0.999);
  F(r, -2, 2); F(g, -2, 2); F(b, -2, 2); F(color_a, -2, 2); F(aspect, -3, 20); F(angle, -720, 720);
  F(lock, -2, 2); F(colorize, -2, 2); F(posterize, -2, 2); F(num, -2, 3); F(paint, -2, 2);
  int before = vp_heap_objects();
  int m = dab_draw(&s.parent, &d);
  MyPaintRectangle rect = {1, 2, 3, 4};
  MyPaintRectangles roi = {1, &rect};
  TileIndex t = {0, 0};
  if (why < 4) {
    vp_assert(m == 0, "an invisible dab reports an unmodified surface");
    vp_assert(vp_heap_objects() == before, "an invisible dab queues nothing");
    mypaint_surface_end_atomic(&s.parent, &roi);
    vp_assert(roi.num_rectangles == 0, "an invisible dab dirties nothing");
    vp_assert(tiles == 0, "no tile is requested");
  } else {
    vp_assert(m != 0, "a visible dab reports a modified surface");
    int n = 0;
    {
      OperationDataDrawDab *op;
      while ((op = operation_queue_pop(s.operation_queue, t))) {
        n++;
        vp_assert(op->opaque > 0 && op->opaque <= 1, "queued opacity in range");
        vp_assert(op->hardness > 0 && op->hardness <= 1, "queued hardness in range");
        vp_assert(op->softness >= 0 && op->softness < 1, "queued softness in range");
        vp_assert(op->color_r <= 32768 && op->color_g <= 32768 && op->color_b <= 32768, "queued colour in range");
        vp_assert(op->color_a >= 0 && op->color_a <= 1, "queued alpha in range");
        vp_assert(op->aspect_ratio >= 1, "queued aspect ratio in range");
        vp_assert(op->lock_alpha >= 0 && op->lock_alpha <= 1, "queued alpha lock in range");
        vp_assert(op->colorize >= 0 && op->colorize <= 1, "queued colorize in range");
        vp_assert(op->posterize >= 0 && op->posterize <= 1, "queued posterize in range");
        vp_assert(op->posterize_num >= 1 && op->posterize_num <= 128, "queued posterize levels in range");
        vp_assert(op->paint >= 0 && op->paint <= 1, "queued paint ratio in range");
        vp_assert(op->normal >= 0 && op->normal <= 1, "queued normal weight in range");
        free(op);
      }
    }
    vp_assert(n > 0, "a visible dab is queued");
  }
  vp_obs_u("m", m);
}
