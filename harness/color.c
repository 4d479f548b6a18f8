/* P21: colour space conversions stay in range and undo each other */
#include "vp.h"
#include <math.h>
#include "helpers.h"
#ifndef TOL
#define TOL 0.0003
#endif
static int near(double a, double b) { return a - b <= TOL && b - a <= TOL; }
void vp_main(void)
{
  float c[3], d[3];
  static const float part[4] = {1.0f, 0.75f, 0.25f, 0.0f};
  int order = vp_choice("order", 6);
  float hi = vp_f("max", 0, 1), mid = vp_f("mid", 0, 1), lo = vp_f("min", 0, 1);
#ifdef TRIP
  hi = part[vp_choice("top", 3)];
#endif
#ifdef TRIP
  lo = part[vp_choice("bottom", 4)];
#endif
  vp_assume(lo <= mid && mid <= hi);
#ifdef TRIP
  vp_assume(mid - lo >= 0.00001f);   /* the hue next to a whole turn: rounding decides between the two ends */
#endif
  static const int perm[6][3] = {{0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0}};
  c[perm[order][0]] = hi; c[perm[order][1]] = mid; c[perm[order][2]] = lo;
  for (int i = 0; i < 3; i++) d[i] = c[i];
#ifdef HSL
  rgb_to_hsl_float(d, d + 1, d + 2);
#else
  rgb_to_hsv_float(d, d + 1, d + 2);
#endif
#if !defined(TRIP) || defined(HSL)
  vp_assert(d[0] >= 0 && d[0] <= 1.00001f, "hue in range");
  vp_assert(d[1] >= 0 && d[1] <= 1.0001f, "saturation in range");
  vp_assert(d[2] >= 0 && d[2] <= 1, "value in range");
#endif
#ifdef HSL
  vp_assert(near(d[2], (hi + lo) / 2.0), "lightness is the middle of the extreme channels");
  hsl_to_rgb_float(d, d + 1, d + 2);
#else
  vp_assert(d[2] == hi, "value is the largest channel");
  hsv_to_rgb_float(d, d + 1, d + 2);
#endif
  for (int i = 0; i < 3; i++) {
#ifdef TRIP
    vp_assert(d[i] >= -0.00001f && d[i] <= 1.00001f, "channels in range");
    vp_assert(near(d[i], c[i]), "converting there and back gives the same colour");
#else
    vp_assert(d[i] >= -0.00001f && d[i] <= 1.00001f, "channels in range");
#endif
  }
}
