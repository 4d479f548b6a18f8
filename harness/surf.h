/* helpers for the tiled surface harnesses: tile backend and blend functions are recorders */
#include "vp.h"
#include <math.h>
#include "mypaint-tiled-surface.h"
#include "operationqueue.h"
#include "brushmodes.h"
#define TS MYPAINT_TILE_SIZE
typedef struct { float x, y, radius, r, g, b, opaque, hardness, softness, color_a, aspect, angle, lock, colorize, posterize, num, paint; } Dab;
static inline int dab_draw(MyPaintSurface *s, const Dab *d)
{
  return mypaint_surface_draw_dab(s, d->x, d->y, d->radius, d->r, d->g, d->b, d->opaque, d->hardness, d->softness, d->color_a,
                                  d->aspect, d->angle, d->lock, d->colorize, d->posterize, d->num, d->paint);
}
static inline Dab plain_dab(float x, float y, float radius)
{
  Dab d = {x, y, radius, 0.5f, 0.5f, 0.5f, 1.0f, 0.5f, 0.0f, 1.0f, 1.0f, 0.0f, 0.0f, 0.0f, 0.0f, 0.0f, 0.0f};
  return d;
}
/* a backend without tiles: nothing is rendered */
static void no_tile_start(MyPaintTiledSurface *s, MyPaintTileRequest *r) { r->buffer = NULL; }
static void no_tile_end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { }
#ifndef OWN_BLEND
void draw_dab_pixels_BlendMode_Normal(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) {}
void draw_dab_pixels_BlendMode_Normal_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) {}
void draw_dab_pixels_BlendMode_Color(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) {}
void draw_dab_pixels_BlendMode_Posterize(uint16_t *m, uint16_t *p, uint16_t o, uint16_t n) {}
void draw_dab_pixels_BlendMode_Normal_and_Eraser(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) {}
void draw_dab_pixels_BlendMode_Normal_and_Eraser_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) {}
void draw_dab_pixels_BlendMode_LockAlpha(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) {}
void draw_dab_pixels_BlendMode_LockAlpha_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) {}
void get_color_pixels_accumulate(uint16_t *m, uint16_t *p, float *w, float *r, float *g, float *b, float *a, float paint, uint16_t i, float rate) {}
#endif
static inline int covers(const MyPaintRectangle *r, int px, int py)
{
  return r->width > 0 && r->height > 0 && px >= r->x && px < r->x + r->width && py >= r->y && py < r->y + r->height;
}
static inline int floordiv(int a, int b) { int q = a / b; return a % b < 0 ? q - 1 : q; }
