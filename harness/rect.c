/* P11: the expansion of a rectangle is exactly the smallest one that contains everything */
#include "vp.h"
#include "mypaint-rectangle.h"
#include <stdlib.h>
#define LIM 1000000
static int imin(int a, int b) { return a < b ? a : b; }
static int imax(int a, int b) { return a > b ? a : b; }
void vp_main(void)
{
  int empty = vp_choice("empty", 2);
  MyPaintRectangle r = {0, 0, 0, 0};
  if (!empty) {
    r.x = vp_i("x", -LIM, LIM); r.y = vp_i("y", -LIM, LIM);
    r.width = vp_i("w", 1, LIM); r.height = vp_i("h", 1, LIM);
  } else { r.x = vp_i("x", -LIM, LIM); r.y = vp_i("y", -LIM, LIM); }
  MyPaintRectangle o = {vp_i("ox", -LIM, LIM), vp_i("oy", -LIM, LIM), 1, 1};
#ifdef RECT
  o.width = vp_i("ow", 1, LIM); o.height = vp_i("oh", 1, LIM);
#endif
  MyPaintRectangle old = r, oo = o;
#ifdef RECT
  mypaint_rectangle_expand_to_include_rect(&r, &o);
  vp_assert(o.x == oo.x && o.y == oo.y && o.width == oo.width && o.height == oo.height, "the included rectangle is not modified");
#else
  mypaint_rectangle_expand_to_include_point(&r, o.x, o.y);
#endif
  int x0 = oo.x, y0 = oo.y, x1 = oo.x + oo.width, y1 = oo.y + oo.height;
  if (!empty) {
    x0 = imin(x0, old.x); y0 = imin(y0, old.y);
    x1 = imax(x1, old.x + old.width); y1 = imax(y1, old.y + old.height);
  }
  vp_assert(r.x == x0, "left edge of the union");
  vp_assert(r.y == y0, "top edge of the union");
  vp_assert(r.width == x1 - x0, "width of the union");
  vp_assert(r.height == y1 - y0, "height of the union");
  vp_obs_u("x", r.x); vp_obs_u("y", r.y); vp_obs_u("w", r.width); vp_obs_u("h", r.height);
#ifdef COPY
  MyPaintRectangle *c = mypaint_rectangle_copy(&r);
  vp_assert(c != &r && c->x == r.x && c->y == r.y && c->width == r.width && c->height == r.height, "a copy equals its original");
  c->x++; vp_assert(r.x == x0, "a copy is independent");
  free(c);
#endif
}
