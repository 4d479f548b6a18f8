/* P19: the parameters of the dabs a brush draws */
#include "brush.h"
#define S(n) MYPAINT_BRUSH_SETTING_##n
static MyPaintBrush *b;
static Rec one(float x, float y)
{
  place(b, x - 1.5f, y, 1);
  go(b, x, y, 1, 0.01);
  vp_assert(ndabs == 1, "one dab");
  return dabs[0];
}
void vp_main(void)
{
  b = new_brush();
  set(b, S(STROKE_DURATION_LOGARITHMIC), 7);
  set(b, S(STROKE_HOLDTIME), 5);
  int part = vp_choice("part", 9);
  float X = 13.25f, Y = 40;     /* the dab is at X - 0.5 */
  if (part == 0) {              /* opacity */
    float o = vp_f("opaque", -1, 2), m = 0.75f;
    if (vp_choice("other", 2)) { m = o; o = 0.6f; }
    set(b, S(OPAQUE), o);
    set(b, S(OPAQUE_MULTIPLY), m);
    Rec d = one(X, Y);
    double e = (o > 0 ? (double)o : 0) * m;
    if (e < 0) e = 0;
    if (e > 1) e = 1;
    NEAR(d.opaque, e, 1e-4, "the opacity is the product of the two settings, between 0 and 1");
  } else if (part == 1) {       /* hardness, softness, eraser and the rest are passed on */
    float h = vp_f("hardness", -0.5f, 1.5f), s = vp_f("softness", -0.5f, 1.5f), e = vp_f("eraser", 0, 1);
    set(b, S(HARDNESS), h); set(b, S(SOFTNESS), s); set(b, S(ERASER), e);
    float v[6];
    MyPaintBrushSetting id[6] = {S(LOCK_ALPHA), S(COLORIZE), S(POSTERIZE), S(POSTERIZE_NUM), S(PAINT_MODE), S(ELLIPTICAL_DAB_RATIO)};
    for (int i = 0; i < 6; i++) { v[i] = vp_f("value", 0, 1); if (i < 5) set(b, id[i], v[i]); }
    Rec d = one(X, Y);
    vp_assert(d.hardness == (h < 0 ? 0 : h > 1 ? 1 : h), "hardness, clamped");
    vp_assert(d.softness == (s < 0 ? 0 : s > 1 ? 1 : s), "softness, clamped");
    NEAR(d.alpha, 1 - e, 1e-5, "the eraser setting decides how much is left");
    vp_assert(d.lock == v[0], "lock alpha"); vp_assert(d.colorize == v[1], "colorize"); vp_assert(d.posterize == v[2], "posterize");
    vp_assert(d.num == v[3], "posterize levels"); vp_assert(d.paint == v[4], "paint mode");
    NEAR(d.x, X - 0.5, 1e-3, "on the way"); NEAR(d.y, Y, 1e-3, "on the way");
    NEAR(d.radius, 1, 1e-5, "radius");
  } else if (part == 2) {       /* a minimum fade out for antialiasing keeps the optical radius */
    static const float hs[4] = {1.0f, 0.9f, 0.5f, 0.0f}, rl[4] = {0.0f, 0.7f, 2.0f, -2.0f};
    int hi = vp_choice("hardness", 4), ri = vp_choice("radius", 4);
    float aa = vp_f("fade out", 0.01f, 1.5f), h = hs[hi];
    set(b, S(HARDNESS), h);
    set(b, S(RADIUS_LOGARITHMIC), rl[ri]);
    set(b, S(DABS_PER_BASIC_RADIUS), ri == 3 ? 0.2f : expf(rl[ri]));
    set(b, S(ANTI_ALIASING), aa);
    Rec d = one(X, Y);
    double r = ri == 3 ? 0.2 : expf(rl[ri]), opt = r * (1 + h) / 2, fade = r * (1 - h);
    vp_assume(opt > aa / 2.0 + 0.01);
    double lim = ri == 3 ? 1e-4 : 2e-3;
    vp_assert(d.hardness >= 0 && d.hardness <= 1, "the hardness stays in range");
    vp_assert(d.radius >= r * 0.9999, "the dab only grows");
    NEAR(d.radius - d.radius * (1.0 - d.hardness) / 2, opt, 2e-3 * r, "the optical radius stays the same");
    double f = d.radius * (1.0 - d.hardness);
    vp_assert(f - aa >= -lim, "the fade out is at least the one asked for");
    if (fade >= aa + 1e-6) { NEAR(d.radius, r, 1e-4 * r, "nothing changes when the fade out is large enough"); vp_assert(d.hardness == h, "nothing changes when the fade out is large enough"); }
  } else if (part == 3) {       /* offsets are limited and otherwise exact */
    float ox = vp_f("offset", -10000, 10000);
    set(b, S(OFFSET_X), ox); set(b, S(OFFSET_Y), 2);
    Rec d = one(X, Y);
    double e = ox;
    if (e > 3240) e = 3240;
    if (e < -3240) e = -3240;
    NEAR(d.x, X - 0.5 + e, 0.01, "the dab is moved by the offset, at most 3240 pixels");
    NEAR(d.y, Y + 2, 0.01, "the dab is moved by the offset, at most 3240 pixels");
  } else if (part == 4) {       /* snapping to pixels */
    float ox = vp_f("offset", 0, 3), rlog = 0.9f;
    set(b, S(OFFSET_X), ox);
    set(b, S(RADIUS_LOGARITHMIC), rlog);
    set(b, S(DABS_PER_BASIC_RADIUS), expf(rlog));
    set(b, S(SNAP_TO_PIXEL), 1);
    Rec d = one(X, Y);
    double at = X - 0.5 + expf(rlog) * (double)ox;
    double c = d.x - 0.5;
    NEAR(c, floor(c + 0.5), 1e-3, "the dab is centred on a pixel");
    NEAR(d.x, at, 0.501, "the nearest pixel");
    NEAR(d.y, Y + 0.5, 1e-3, "the dab is centred on a pixel");
    NEAR(d.radius, 2.5 - 0.0001, 1e-4, "the radius is a multiple of half a pixel");
  } else if (part == 5) {       /* the radius is the exponential of the setting, within limits */
    static const float rl[7] = {-50, -2, -1, 0.5f, 3, 6.9f, 90};
    float r = rl[vp_choice("radius", 7)], pr = vp_f("pressure", 0, 1);
    set(b, S(DABS_PER_BASIC_RADIUS), 0);
    set(b, S(DABS_PER_SECOND), 100);
    set(b, S(RADIUS_LOGARITHMIC), r);
    place(b, X, Y, pr);
    mypaint_brush_stroke_to(b, &surf, X, Y, pr, 0, 0, 0.015, 1, 0, 0, 0);
    double e = exp(r);
    if (e < 0.2) e = 0.2;
    if (e > 1000) e = 1000;
    vp_assert(ndabs == 1, "one dab");
    NEAR(dabs[0].radius, e, 1e-3 * e, "the radius is the exponential of the setting, within limits");
  } else if (part == 6) {       /* linearised opacity: several overlapping dabs add up to the requested one */
    if (vp_choice("full", 2) == 0) {
      float o = vp_f("opaque", 0, 1);
      set(b, S(OPAQUE), o);
      set(b, S(OPAQUE_LINEARIZE), 0);
      Rec d = one(X, Y);
      NEAR(d.opaque, o, 1e-5, "the opacity is the one asked for");
    } else {                    /* the opacity is one of a few here: its root would be too hard */
      static const float os[5] = {0, 0.04f, 0.5f, 0.9f, 1};
      float o = os[vp_choice("opacity", 5)], n = vp_choice("dabs", 2) ? 1.0f : 0.2f;
      set(b, S(OPAQUE), o);
      set(b, S(OPAQUE_LINEARIZE), 1);
      set(b, S(HARDNESS), vp_f("hardness", 0, 1));
      set(b, S(DABS_PER_BASIC_RADIUS), n);
      place(b, X - 1 / n - 0.5f, Y, 1);
      go(b, X, Y, 1, 0.01);
      vp_assert(ndabs == 1, "one dab");
      double per = 2 * n < 1 ? 1 : 2 * n, left = pow(1.0 - (double)dabs[0].opaque, per);
      NEAR(1 - left, o, 1e-3, "the dabs that overlap at a point add up to the opacity asked for");
    }
  } else if (part == 7) {       /* colour changes leave a valid colour, and none leaves it as it is */
    float h = vp_f("h", -1, 2), s = 0.5f, v = 0.75f, ch = vp_f("change", -2, 2);
    int w = vp_choice("which", 6), base = vp_choice("base", 3);
    if (base == 1) { s = h; h = 0.3f; }
    if (base == 2) { v = h; h = 0.3f; }
    set(b, S(COLOR_H), h); set(b, S(COLOR_S), s); set(b, S(COLOR_V), v);
    MyPaintBrushSetting id[6] = {S(CHANGE_COLOR_H), S(CHANGE_COLOR_HSV_S), S(CHANGE_COLOR_V), S(CHANGE_COLOR_L), S(CHANGE_COLOR_HSL_S), S(CUSTOM_INPUT)};
    set(b, id[w], ch);
    Rec d = one(X, Y);
    double tol = w == 3 || w == 4 ? 1e-4 : 0;
    vp_assert(d.r >= -tol && d.r <= 1 + tol, "red is valid");
    vp_assert(d.g >= -tol && d.g <= 1 + tol, "green is valid");
    vp_assert(d.b >= -tol && d.b <= 1 + tol, "blue is valid");
  } else {                      /* the ellipse turns with the view */
    float a = vp_f("angle", -1000, 1000), view[3] = {0, 0.5f, -2.0f}, vr = view[vp_choice("view", 3)];
    set(b, S(ELLIPTICAL_DAB_ANGLE), a);
    set(b, S(ELLIPTICAL_DAB_RATIO), 3);
    set(b, S(DABS_PER_BASIC_RADIUS), 0);
    set(b, S(DABS_PER_SECOND), 100);
    mypaint_brush_stroke_to(b, &surf, X, Y, 1, 0, 0, 0.01, 1, vr, 0, 0);
    mypaint_brush_stroke_to(b, &surf, X, Y, 1, 0, 0, 0.01, 1, vr, 0, 0);
    mypaint_brush_stroke_to(b, &surf, X, Y, 1, 0, 0, 0.015, 1, vr, 0, 0);
    vp_assert(ndabs == 1, "one dab");
    vp_assert(dabs[0].angle >= -180.001f && dabs[0].angle <= 0.001f, "the angle is in range");
    double q = (a - vr * 180.0 / M_PI - dabs[0].angle) / 180.0, f = floor(q + 0.5);
    NEAR(q, f, 1e-4, "the ellipse keeps its direction on the screen");
    vp_assert(dabs[0].ratio == 3, "the ratio");
  }
  mypaint_brush_unref(b);
}
