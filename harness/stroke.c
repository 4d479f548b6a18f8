/* P18: strokes */
#include "brush.h"
static void at(MyPaintBrush *b, float x, float y, float p)
{
  NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_X), x, 1e-4, "after an event the brush is where the event was");
  NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_Y), y, 1e-4, "after an event the brush is where the event was");
  NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_PRESSURE), p, 1e-4, "after an event the brush has the pressure of the event");
}
#define NE 3
/* where the events are, in dab spacings along the way; the ways point in different directions */
static const float stops[5][NE] = {{1.5f, 4.25f, 4.25f}, {0.6f, 0.9f, 3.75f}, {2.75f, 3.25f, 5.5f}, {0.3f, 0.5f, 0.7f}, {1.25f, 1.5f, 1.75f}};
static const float dirs[4][2] = {{1, 0}, {0, 1}, {-0.6f, 0.8f}, {-0.8f, -0.6f}};
void vp_main(void)
{
  MyPaintBrush *b = new_brush();
  set(b, MYPAINT_BRUSH_SETTING_STROKE_DURATION_LOGARITHMIC, 7);
  set(b, MYPAINT_BRUSH_SETTING_STROKE_HOLDTIME, 5);
  int part = vp_choice("part", 6);
  if (part < 2) {                  /* dabs are evenly spaced, however the way is split, and the pressure is interpolated */
    mypaint_brush_set_mapping_n(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, MYPAINT_BRUSH_INPUT_PRESSURE, 2);
    mypaint_brush_set_mapping_point(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, MYPAINT_BRUSH_INPUT_PRESSURE, 0, 0, 0);
    mypaint_brush_set_mapping_point(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, MYPAINT_BRUSH_INPUT_PRESSURE, 1, 1, 1);
    set(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, 0);
    if (part == 1) {               /* dabs by time instead of by way */
      set(b, MYPAINT_BRUSH_SETTING_DABS_PER_BASIC_RADIUS, 0);
      set(b, MYPAINT_BRUSH_SETTING_DABS_PER_SECOND, 10);
    }
    double p[NE + 1];
    for (int i = 0; i <= NE; i++) p[i] = vp_f("pressure", 0.01f, 1);
    const float *st = stops[vp_choice("stops", 5)], *dir = dirs[vp_choice("dir", 4)];
    float x0 = 3, y0 = 200;
    place(b, x0, y0, p[0]);
    int k = 1;
    float from = 0;
    for (int e = 0; e < NE; e++) {
      if (part == 1 && st[e] == from) continue;
      float x = x0 + st[e] * dir[0], y = y0 + st[e] * dir[1];
      go(b, x, y, p[e + 1], part == 1 ? (st[e] - from) * 0.1 : 0.01);
      at(b, x, y, p[e + 1]);
      int due = (int)st[e];
      vp_assert(ndabs == due, "one dab per spacing, however the way is split into events");
      for (; k <= ndabs; k++) {
        double f = (k - from) / (st[e] - from), want = p[e] * (1 - f) + p[e + 1] * f, way = k;
        NEAR(dabs[k - 1].opaque, want, 2e-3, "pressure is interpolated linearly between the events");
        NEAR(dabs[k - 1].x, x0 + dir[0] * way, 2e-3, "dabs lie evenly spaced on the way");
        NEAR(dabs[k - 1].y, y0 + dir[1] * way, 2e-3, "dabs lie evenly spaced on the way");
      }
      from = st[e];
    }
  } else if (part == 2) {          /* tilt */
    float t = vp_f("tilt", 0.01f, 3);
    int which = vp_choice("which", 4);
    float c = t > 1 ? 1 : t;
    place(b, 0, 0, 0.5f);
    mypaint_brush_stroke_to(b, &surf, 2.5f, 0, 0.5f, which == 0 ? t : which == 1 ? -t : 0, which == 2 ? t : which == 3 ? -t : 0, 0.01, 1, 0, 0, 0);
    NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_DECLINATION), 90 - 60 * c, 1e-2, "the declination follows the tilt");
    NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_DECLINATIONX), (which == 0 ? c : which == 1 ? -c : 0) * 60, 1e-2 + (which > 1 ? 0.02 : 0), "the x declination follows the tilt");
    NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_DECLINATIONY), (which == 2 ? c : which == 3 ? -c : 0) * 60, 1e-2, "the y declination follows the tilt");
    at(b, 2.5f, 0, 0.5f);
  } else if (part == 3) {          /* a pause or a reset request starts a new stroke without drawing */
    place(b, 0, 0, 0.5f);
    float x = vp_f("x", -1000, 1000), y = vp_f("y", -1000, 1000), p = vp_f("p", -1, 1);
    double dt = 0.01;
    if (vp_choice("how", 2)) mypaint_brush_reset(b);
    else { dt = vp_d("dt", 5.001, 1000); if (p > 0) dt = 5.1; }
    int r = go(b, x, y, p, dt);
    vp_assert(r != 0, "a new stroke starts");
    vp_assert(ndabs == 0, "nothing is drawn on the way to the start of a stroke");
    at(b, x, y, p > 0 ? p : 0);
  } else if (part == 4) {          /* splitting */
    answer = vp_choice("visible", 2);
    float p = vp_f("p", 0.01f, 1);
    static const double times[3] = {0.002, 0.03, 0.09};
    double dt = times[vp_choice("time", 3)];
    place(b, 0, 0, p);
    for (int i = 1; i <= 3; i++) {
      int r = go(b, 0, i * 1.5f, p, dt);
      vp_assert(r == 0, "a short stroke is not split");
    }
    vp_assert(ndabs == 4, "one dab per spacing");
    if (answer) {                  /* time goes by: painting for more than seven seconds splits */
      int r = go(b, 0, 6.0f, p, 4.9);
      r |= go(b, 0, 8.0f, p, 4.9);
      vp_assert(r != 0, "an endless stroke is split");
    } else {
      int r = go(b, 0, 6.0f, p, 1.1);
      vp_assert(r != 0, "idle motion is split off");
    }
  } else {                         /* positions that are not numbers, or absurd */
    static const float bad[4] = {NAN, INFINITY, -INFINITY, 3e10f};
    set(b, MYPAINT_BRUSH_SETTING_OFFSET_BY_SPEED, 1);
    float p = vp_f("p", -1, 1);
    place(b, 1, 1, 0.5f);
    float v = bad[vp_choice("bad", 4)];
    int which = vp_choice("which", 2);
    go(b, which ? v : 1, which ? 1 : v, p, 0.01);
    for (int i = 0; i < MYPAINT_BRUSH_STATES_COUNT; i++) { float v = mypaint_brush_get_state(b, i); vp_assert(v - v == 0, "the state stays finite"); }
    for (int i = 0; i < ndabs; i++) {
      vp_assert(dabs[i].x - dabs[i].x == 0 && dabs[i].y - dabs[i].y == 0, "dabs are placed at finite positions");
      vp_assert(dabs[i].radius > 0 && dabs[i].radius <= 1000, "dabs have a radius");
    }
  }
  mypaint_brush_unref(b);
  vp_no_leak("the brush is released");
}
