/* P27: the geometric transformations */
#include "vp.h"
#include <math.h>
#include "mypaint-matrix.h"
#ifndef NA
#define NA 4
#endif
#define NEAR(a, b, tol, msg) do { vp_assert((a) - (b) <= (tol), msg); vp_assert((b) - (a) <= (tol), msg); } while (0)
static MyPaintTransform base(int k)
{
  MyPaintTransform m = mypaint_transform_unit();
  if (k == 1) m = mypaint_transform_translate(m, 7.5f, -3.25f);
  if (k == 2) m = mypaint_transform_rotate_cw(mypaint_transform_translate(m, 2.0f, 5.0f), 0.7f);
  if (k == 3) m = mypaint_transform_reflect(m, 2.0f);
  return m;
}
void vp_main(void)
{
  static const float as[8] = {0.5f, 1.5707964f, -2.0f, 7.0f, 0, 3.1415927f, 4.0f, -0.001f};
  float x = vp_f("x", -1000, 1000), y = vp_f("y", -1000, 1000), px, py;
  int bk = vp_choice("base", 4), op = vp_choice("operation", 4);
  MyPaintTransform m = base(bk), t;
  float ang = as[vp_choice("angle", NA)];
  mypaint_transform_point(&m, x, y, &px, &py);
  double ex = px, ey = py, c = cos(ang), s = sin(ang), c2 = cos(2.0 * ang), s2 = sin(2.0 * ang);
  if (op == 0) {
    t = mypaint_transform_rotate_cw(m, ang);
    ex = c * px + s * py; ey = c * py - s * px;
  } else if (op == 1) {
    t = mypaint_transform_rotate_ccw(m, ang);
    ex = c * px - s * py; ey = s * px + c * py;
  } else if (op == 2) {
    t = mypaint_transform_reflect(m, ang);
    ex = c2 * px + s2 * py; ey = s2 * px - c2 * py;
  } else {
    float dx = vp_f("dx", -1000, 1000), dy = vp_f("dy", -1000, 1000);
    t = mypaint_transform_translate(m, dx, dy);
    ex = px + (double)dx; ey = py + (double)dy;
  }
  float rx, ry;
  mypaint_transform_point(&t, x, y, &rx, &ry);
  NEAR(rx, ex, 0.004, "x of the transformed point"); NEAR(ry, ey, 0.004, "y of the transformed point");
  MyPaintTransform m2 = base(bk);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) vp_assert(m.rows[i][j] == m2.rows[i][j], "the given transformation is not changed");
}
