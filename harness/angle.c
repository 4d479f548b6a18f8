/* P22: angles are reduced into their range and stay congruent */
#include "vp.h"
#include <math.h>
#include "helpers.h"
#ifndef LIM
#define LIM 10000
#endif
void vp_main(void)
{
  int what = vp_choice("what", 3);
  if (what == 0) {
    float a = vp_f("a", -LIM, LIM);
    static const float ns[4] = {360.0f, 180.0f, 256.0f, 1.0f};
    float n = ns[vp_choice("n", 4)];
    float r = mod_arith(a, n);
    double k = (a - (double)r) / n, q = floor(k + 0.5);
    vp_assert(r >= -1e-4 * n && r <= n * (1 + 1e-4), "the remainder is in range");
    vp_assert(k - q <= LIM * 1e-6 + 1e-6 && q - k <= LIM * 1e-6 + 1e-6, "the remainder is congruent");
  } else if (what == 1) {
    float a = vp_f("a", -LIM, LIM), b = vp_f("b", -LIM, LIM);
    float r = smallest_angular_difference(a, b);
    vp_assert(r >= -180.001 && r <= 180.001, "the difference is at most half a turn");
    double k = (a + (double)r - b) / 360.0, q = floor(k + 0.5);
    vp_assert(k - q <= LIM * 1e-6 && q - k <= LIM * 1e-6, "the difference leads from one angle to the other");
  } else {
    /* mirrored and whole turns */
    float a = vp_f("a", -LIM, LIM), d = vp_f("d", -179.9f, 179.9f);
    float b = a + d;
    float r = smallest_angular_difference(a, b);
    vp_assert(r - d <= 0.01f && d - r <= 0.01f, "a small difference is found as it is");
  }
}
