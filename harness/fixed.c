/* P12: the fixed tiled surface: every tile with pixels of the surface has its own, persistent storage; requests outside
 * get a scratch tile that always reads as transparent; sizes are kept; everything is released */
#include "surf.h"
#include "mypaint-fixed-tiled-surface.h"
#ifndef WMAX
#define WMAX 5
#endif
static uint16_t old[TS * TS * 4];
static int inside(int w, int h, int tx, int ty) { return tx >= 0 && ty >= 0 && tx * TS < w && ty * TS < h; }
void vp_main(void)
{
  int w = 1 + vp_choice("w", WMAX), h = 1 + vp_choice("h", WMAX);
  MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
  vp_assert(f != NULL, "a surface is created");
  vp_assert(mypaint_fixed_tiled_surface_get_width(f) == w && mypaint_fixed_tiled_surface_get_height(f) == h, "the surface has the requested size");
  MyPaintSurface *s = mypaint_fixed_tiled_surface_interface(f);
  MyPaintTiledSurface *ts = (MyPaintTiledSurface *)s;
  vp_assert(ts->tile_size == TS, "tile size");
  MyPaintTileRequest a, b;
  int atx = vp_i("atx", -100, 100), aty = vp_i("aty", -100, 100), btx = vp_i("btx", -100, 100), bty = vp_i("bty", -100, 100);
  mypaint_tile_request_init(&a, 0, atx, aty, 0);
  vp_assert(a.tx == atx && a.ty == aty && a.readonly == 0 && a.mipmap_level == 0 && a.buffer == NULL && a.context == NULL, "an initialised request");
  int ina = inside(w, h, atx, aty), inb = inside(w, h, btx, bty), same = atx == btx && aty == bty;
  mypaint_tiled_surface_tile_request_start(ts, &a);
  vp_assert(a.buffer != NULL, "a tile is handed out");
  for (int i = 0; i < TS * TS; i++) {
    uint16_t *p = a.buffer + 4 * i;
    if (ina) vp_assert(p[3] <= 32768 && p[0] <= p[3] && p[1] <= p[3] && p[2] <= p[3], "a new surface contains valid pixels");
    else vp_assert(p[0] == 0 && p[1] == 0 && p[2] == 0 && p[3] == 0, "outside the surface everything is transparent");
  }
  for (int i = 0; i < TS * TS * 4; i++) { old[i] = 100 + i; a.buffer[i] = old[i]; }
  mypaint_tiled_surface_tile_request_end(ts, &a);
  mypaint_tile_request_init(&b, 0, btx, bty, 0);
  mypaint_tiled_surface_tile_request_start(ts, &b);
  for (int i = 0; i < TS * TS * 4; i++) {
    if (!inb) vp_assert(b.buffer[i] == 0, "writes outside the surface are ignored");
    else if (same) vp_assert(b.buffer[i] == old[i], "what is written to a tile is kept");
    else vp_assert(b.buffer[i] >= 32768, "writing one tile does not change another");
    b.buffer[i] = 7;
  }
  mypaint_tiled_surface_tile_request_end(ts, &b);
  mypaint_tile_request_init(&a, 0, atx, aty, 1);
  mypaint_tiled_surface_tile_request_start(ts, &a);
  for (int i = 0; i < TS * TS * 4; i++)
    vp_assert(a.buffer[i] == (!ina ? 0 : same ? 7 : old[i]), "what is written to a tile is kept");
  mypaint_tiled_surface_tile_request_end(ts, &a);
  vp_obs_u("v", a.buffer[0]);
  vp_assert(mypaint_fixed_tiled_surface_get_width(f) == w && mypaint_fixed_tiled_surface_get_height(f) == h, "the size never changes");
  mypaint_surface_unref(s);
  vp_no_leak("the surface");
}
