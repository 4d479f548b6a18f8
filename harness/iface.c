/* P25: surfaces and brushes live as long as they are referenced; calls reach the backend unchanged */
#include "vp.h"
#include "mypaint-brush.h"
#include "mypaint-surface.h"
#include "mypaint-fixed-tiled-surface.h"
#include "jsonstub.h"
static int destroyed, begun, ended, saved, dabs, colors, ret;
static float a[17], c[5];
static float *cp[4];
static MyPaintRectangles *roi;
static MyPaintSurface *which;
static int sx, sy, sw, sh;
static const char *sp;
static int my_dab(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float alpha,
                  float ratio, float angle, float lock, float colorize, float posterize, float num, float paint)
{
  float v[17] = {x, y, radius, r, g, b, opaque, hardness, softness, alpha, ratio, angle, lock, colorize, posterize, num, paint};
  for (int i = 0; i < 17; i++) a[i] = v[i];
  which = s; dabs++;
  return ret;
}
static void my_color(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *al, float paint)
{
  which = s; colors++;
  a[0] = x; a[1] = y; a[2] = radius; a[3] = paint;
  *r = c[0]; *g = c[1]; *b = c[2]; *al = c[3];
}
static void my_begin(MyPaintSurface *s) { which = s; begun++; }
static void my_end(MyPaintSurface *s, MyPaintRectangles *r) { which = s; ended++; roi = r; }
static void my_destroy(MyPaintSurface *s) { which = s; destroyed++; }
static void my_png(MyPaintSurface *s, const char *p, int x, int y, int w, int h) { which = s; saved++; sp = p; sx = x; sy = y; sw = w; sh = h; }
void vp_main(void)
{
  MyPaintSurface s;
  memset(&s, 0, sizeof s);
  int part = vp_choice("part", 4);
  s.destroy = my_destroy; s.draw_dab = my_dab; s.get_color = my_color; s.end_atomic = my_end;
  mypaint_surface_init(&s);
  if (part == 0) {              /* any balanced history of references */
    int refs = 1;
    for (int i = 0; i < 8 && refs > 0; i++) {
      int up = vp_choice("ref", 2);
      if (up) { mypaint_surface_ref(&s); refs++; } else { mypaint_surface_unref(&s); refs--; }
      vp_assert(destroyed == (refs == 0), "destroyed exactly when the last reference is dropped");
      if (refs == 0) vp_assert(which == &s, "the surface itself is destroyed");
    }
  } else if (part == 1) {       /* calls reach the backend with their arguments */
    float v[17];
    for (int i = 0; i < 17; i++) v[i] = vp_f("argument", -100000, 100000);
    ret = vp_i("answer", 0, 1);
    int r = mypaint_surface_draw_dab(&s, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16]);
    vp_assert(r == ret && dabs == 1 && which == &s, "a dab is drawn once and its answer is returned");
    for (int i = 0; i < 17; i++) vp_assert(a[i] == v[i], "every argument of a dab arrives unchanged");
    for (int i = 0; i < 4; i++) c[i] = vp_f("color", 0, 1);
    float o[4];
    which = NULL;
    mypaint_surface_get_color(&s, v[0], v[1], v[2], &o[0], &o[1], &o[2], &o[3], v[4]);
    vp_assert(which == &s && a[0] == v[0] && a[1] == v[1] && a[2] == v[2] && a[3] == v[4] && colors == 1, "sampling arrives unchanged");
    for (int i = 0; i < 4; i++) vp_assert(o[i] == c[i], "the sampled colour is returned");
    float al = mypaint_surface_get_alpha(&s, v[0], v[1], v[2]);
    vp_assert(al == c[3] && colors == 2 && a[0] == v[0] && a[1] == v[1] && a[2] == v[2], "the alpha sampled at that place");
    MyPaintRectangles rr;
    mypaint_surface_begin_atomic(&s);
    mypaint_surface_save_png(&s, "x", 1, 2, 3, 4);
    vp_assert(begun == 0 && saved == 0, "missing optional methods are skipped");
    s.begin_atomic = my_begin; s.save_png = my_png;
    which = NULL;
    mypaint_surface_begin_atomic(&s);
    vp_assert(begun == 1 && ended == 0 && which == &s, "a transaction is begun");
    mypaint_surface_end_atomic(&s, &rr);
    vp_assert(ended == 1 && begun == 1 && roi == &rr && which == &s, "a transaction is ended with the rectangles given");
    mypaint_surface_end_atomic(&s, NULL);
    vp_assert(ended == 2 && roi == NULL, "rectangles may be left out");
    int x = vp_i("x", -1000, 1000), y = vp_i("y", -1000, 1000), w = vp_i("w", -1000, 1000), h = vp_i("h", -1000, 1000);
    const char *path = "path";
    mypaint_surface_save_png(&s, path, x, y, w, h);
    vp_assert(saved == 1 && sp == path && sx == x && sy == y && sw == w && sh == h, "saving arrives unchanged");
  } else if (part == 2) {       /* a brush; memory errors and leaks are found by the engine */
    int nb = vp_choice("buckets", 3);
    MyPaintBrush *b = mypaint_brush_new_with_buckets(nb);
    mypaint_brush_set_base_value(b, 3, 0.5f);
    int refs = 1;
    for (int i = 0; i < 5 && refs > 0; i++) {
      int up = vp_choice("ref", 2);
      if (up) { mypaint_brush_ref(b); refs++; } else { mypaint_brush_unref(b); refs--; }
      if (refs > 0) vp_assert(mypaint_brush_get_base_value(b, 3) == 0.5f, "a referenced brush stays usable");
    }
    while (refs-- > 0) mypaint_brush_unref(b);
  } else {                      /* the surface that comes with the library */
    int fw = vp_choice("w", 2) * 2 + 1, fh = vp_choice("h", 2) * 2 + 1;
    MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(fw, fh);
    MyPaintSurface *fs = mypaint_fixed_tiled_surface_interface(f);
    int refs = 1, open = 0;
    for (int i = 0; i < 5 && refs > 0; i++) {
      int up = vp_choice("ref", 2);
      if (up) { mypaint_surface_ref(fs); refs++; if (!open) { mypaint_surface_begin_atomic(fs); open = 1; } }
      else { if (open) { mypaint_surface_end_atomic(fs, NULL); open = 0; } mypaint_surface_unref(fs); refs--; }
      if (refs > 0) vp_assert(mypaint_fixed_tiled_surface_get_width(f) >= 1, "a referenced surface stays usable");
    }
    if (refs > 0 && open) mypaint_surface_end_atomic(fs, NULL);
    while (refs-- > 0) mypaint_surface_unref(fs);
  }
}
