/* P20: random variation follows the random numbers and nothing else (the generator returns symbolic numbers) */
#include "brush.h"
#include "rng-double.h"
#define S(n) MYPAINT_BRUSH_SETTING_##n
#define GAUSS(i) ((u[i] + u[i + 1] + u[i + 2] + u[i + 3]) * 1.73205080757 - 3.46410161514)
static double u[16];
static int drawn, symbolic, fixed;
double __wrap_rng_double_next(RngDouble *r)
{
  double v = 0.5;
  if (symbolic && fixed) v = fixed == 1 ? 0.1 : fixed == 2 ? 0.45 : 0.8;
  else if (symbolic) { v = vp_f("random", 0, 1); }
  if (drawn < 16) u[drawn] = v;
  drawn++;
  return v;
}
void vp_main(void)
{
  MyPaintBrush *b = new_brush();
  int part = vp_choice("part", 5);
  float X = 13.25f, Y = 40;
  static const float rl[2] = {0, 1.0f};
  int big = vp_choice("big", 2);
  float r = expf(rl[big]);
  set(b, S(STROKE_DURATION_LOGARITHMIC), 7);
  set(b, S(STROKE_HOLDTIME), 5);
  set(b, S(RADIUS_LOGARITHMIC), rl[big]);
  set(b, S(DABS_PER_BASIC_RADIUS), 0);
  set(b, S(DABS_PER_SECOND), 100);
  if (part == 0) {              /* nothing random asked for: the numbers have no influence */
    symbolic = 1;
    float o = vp_f("opaque", 0, 1);
    set(b, S(OPAQUE), o);
    place(b, X, Y, 1);
    go(b, X, Y, 1, 0.01);
    vp_assert(ndabs == 1 && dabs[0].x == X && dabs[0].y == Y && dabs[0].opaque == o, "without random settings nothing varies");
    NEAR(dabs[0].radius, r, 1e-4, "without random settings nothing varies");
  } else if (part == 1) {       /* jitter of the position */
    static const float ks[4] = {-0.5f, 0.1f, 1.0f, 2.0f};
    float k = ks[vp_choice("amount", 4)];
    set(b, S(OFFSET_BY_RANDOM), k);
    place(b, X, Y, 1);
    symbolic = 1; drawn = 0;
    go(b, X, Y, 1, 0.01);
    vp_assert(ndabs == 1, "one dab");
    double amp = (k > 0 ? k : 0) * (double)r;
    vp_assert(drawn >= 8 || k < 0, "eight numbers for the jitter of a dab");
    double dx = dabs[0].x - X, dy = dabs[0].y - Y;
    NEAR(dx, k > 0 ? GAUSS(0) * amp : 0, 2e-3 * (1 + amp), "the jitter in x follows the random numbers");
    NEAR(dy, k > 0 ? GAUSS(4) * amp : 0, 2e-3 * (1 + amp), "the jitter in y follows the random numbers");
    vp_assert(dx <= 3.47 * amp + 1e-3 && dx >= -3.47 * amp - 1e-3, "the jitter is limited");
    vp_assert(dy <= 3.47 * amp + 1e-3 && dy >= -3.47 * amp - 1e-3, "the jitter is limited");
    NEAR(dabs[0].radius, r, 1e-4, "only the position varies");
  } else if (part == 2) {       /* variation of the radius */
    float k = vp_choice("amount", 2) ? 1.5f : 0.1f;
    float o = 0.75f;
    fixed = vp_choice("fixed", 4);
    if (fixed) o = vp_f("opaque", 0, 1);
    set(b, S(OPAQUE), o);
    set(b, S(RADIUS_BY_RANDOM), k);
    place(b, X, Y, 1);
    symbolic = 1; drawn = 0;
    go(b, X, Y, 1, 0.01);
    vp_assert(ndabs == 1 && drawn >= 4, "one dab");
    vp_assert(dabs[0].radius >= 0.2 * 0.999 && dabs[0].radius <= 1000.1, "the radius stays within limits");
    vp_assert(dabs[0].x == X && dabs[0].y == Y, "only the radius varies");
    vp_assert(dabs[0].opaque >= 0 && dabs[0].opaque <= o + 1e-4, "a varied dab is at most as opaque");
    if (fixed) {
      double g = GAUSS(0) * k, e = exp((double)rl[big] + g);
      if (e < 0.2) e = 0.2;
      NEAR(dabs[0].radius, e, 2e-3 * e, "the radius follows the random numbers");
      NEAR(dabs[0].opaque, e > r ? o * (r / e) * (r / e) : o, 3e-3, "a larger dab is less opaque, a smaller one keeps its opacity");
    }
  } else if (part == 3) {       /* noise on the input */
    float k = vp_choice("amount", 2) ? 1.5f : 0.25f;
    place(b, X, Y, 1);
    set(b, S(TRACKING_NOISE), k);
    symbolic = 1; drawn = 0;
    go(b, X + 10, Y, 1, 0.01);
    vp_assert(ndabs == 1, "one dab");
    double amp = k * (double)r;
    vp_assert(drawn >= 8, "eight numbers for the noise of an event");
    NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_X) - (X + 10.0), GAUSS(0) * amp, 2e-3 * (1 + amp), "the noise in x follows the random numbers");
    NEAR(mypaint_brush_get_state(b, MYPAINT_BRUSH_STATE_Y) - Y, GAUSS(4) * amp, 2e-3 * (1 + amp), "the noise in y follows the random numbers");
  } else {                      /* the random input changes with every dab and follows the numbers */
    set(b, S(OPAQUE), 0);
    mypaint_brush_set_mapping_n(b, S(OPAQUE), MYPAINT_BRUSH_INPUT_RANDOM, 2);
    mypaint_brush_set_mapping_point(b, S(OPAQUE), MYPAINT_BRUSH_INPUT_RANDOM, 0, 0, 0);
    mypaint_brush_set_mapping_point(b, S(OPAQUE), MYPAINT_BRUSH_INPUT_RANDOM, 1, 1, 1);
    place(b, X, Y, 1);
    symbolic = 1; drawn = 0;
    go(b, X, Y, 1, 0.03);
    vp_assert(ndabs == 3 && drawn >= 2, "three dabs");
    NEAR(dabs[0].opaque, 0.5f, 1e-3, "the number drawn before");
    NEAR(dabs[1].opaque, u[0], 1e-3, "a new number for every dab");
    NEAR(dabs[2].opaque, u[1], 1e-3, "a new number for every dab");
  }
  mypaint_brush_unref(b);
}
