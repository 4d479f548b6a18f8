/* a brush that draws on a surface which only records the dabs */
#include "vp.h"
#include <math.h>
#include "mypaint-brush.h"
#include "jsonstub.h"
typedef struct { float x, y, radius, r, g, b, opaque, hardness, softness, alpha, ratio, angle, lock, colorize, posterize, num, paint; } Rec;
#define MAXDABS 40
static Rec dabs[MAXDABS];
static int ndabs, answer = 1;
static int rec_dab(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float alpha_eraser,
                   float aspect_ratio, float angle, float lock_alpha, float colorize, float posterize, float posterize_num, float paint)
{
  Rec d = {x, y, radius, r, g, b, opaque, hardness, softness, alpha_eraser, aspect_ratio, angle, lock_alpha, colorize, posterize, posterize_num, paint};
  if (ndabs < MAXDABS) dabs[ndabs] = d;
  ndabs++;
  return answer;
}
static void rec_color(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint) { *r = *g = *b = 0.5f; *a = 1; }
static MyPaintSurface surf;
static void set(MyPaintBrush *b, MyPaintBrushSetting s, float v) { mypaint_brush_set_base_value(b, s, v); }
static MyPaintBrush *new_brush(void)
{
  memset(&surf, 0, sizeof surf);
  surf.draw_dab = rec_dab;
  surf.get_color = rec_color;
  MyPaintBrush *b = mypaint_brush_new();
  set(b, MYPAINT_BRUSH_SETTING_OPAQUE, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_HARDNESS, 0.5f);
  set(b, MYPAINT_BRUSH_SETTING_DABS_PER_BASIC_RADIUS, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_ELLIPTICAL_DAB_RATIO, 1.0f);
  return b;
}
/* two events: the first places the brush, the second makes it take over the dab spacing */
static void place(MyPaintBrush *b, float x, float y, float pressure)
{
  int r = mypaint_brush_stroke_to(b, &surf, x, y, pressure, 0, 0, 0.01, 1, 0, 0, 0);
  vp_assert(r != 0, "the first event starts a new stroke");
  mypaint_brush_stroke_to(b, &surf, x, y, pressure, 0, 0, 0.01, 1, 0, 0, 0);
  vp_assert(ndabs == 0, "placing the brush draws nothing");
}
static int go(MyPaintBrush *b, float x, float y, float pressure, double dtime)
{
  return mypaint_brush_stroke_to(b, &surf, x, y, pressure, 0, 0, dtime, 1, 0, 0, 0);
}
#define NEAR(a, b, tol, msg) do { vp_assert((a) - (b) <= (tol), msg); vp_assert((b) - (a) <= (tol), msg); } while (0)
