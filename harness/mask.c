/* P06: the dab mask: well formed, in range, nothing beyond the radius, and the documented falloff */
#include "surf.h"
void render_dab_mask (uint16_t * mask, float x, float y, float radius, float hardness, float softness, float aspect_ratio, float angle);
static const float radii[6] = {3.0f, 3.5f, 7.25f, 0.3f, 1.0f, 2.75f};
static const float hards[4] = {1.0f, 0.5f, 0.1f, 0.9f};
static const float softs[3] = {0.0f, 0.5f, 0.99f};
static const float aspects[3] = {1.0f, 2.0f, 10.0f};
static const float angles[4] = {0.0f, 90.0f, 45.0f, 200.0f};
static const double cosv[4] = {1, 0, 0.70710678118654757, -0.93969262078590832};
static const double sinv[4] = {0, 1, 0.70710678118654757, -0.34202014332566888};
static const float ys[6] = {0.5f, 0.1f, -1.7f, 3.3f, -6.0f, 0.0f};
#ifndef SPAN
#define SPAN 8
#endif
void vp_main(void)
{
  int ri = vp_choice("radius", 6), hi = vp_choice("hardness", 4), si = vp_choice("softness", 3), ai = vp_choice("aspect", 3), gi = vp_choice("angle", 4);
  float radius = radii[ri], hardness = hards[hi], softness = softs[si], aspect = aspects[ai];
  float x = vp_f("x", 1 - SPAN, 1 + SPAN), y = ys[vp_choice("y", 6)];
  uint16_t mask[TS * TS + 2 * TS];
  int opa[TS * TS];
  render_dab_mask(mask, x, y, radius, hardness, softness, aspect, angles[gi]);
  uint16_t *p = mask;
  int n = 0;
  for (int i = 0; i < TS * TS; i++) opa[i] = 0;
  while (1) {
    while (*p) {
      vp_assert(n < TS * TS, "the mask stays inside the tile");
      vp_assert(*p <= 32768, "mask values are at most one");
      opa[n++] = *p++;
    }
    if (!p[1]) break;
    vp_assert(p[1] % 4 == 0, "a skip is a whole number of pixels");
    n += p[1] / 4;
    p += 2;
  }
  vp_assert(n <= TS * TS, "the mask stays inside the tile");
  double limit = radius + (radius < 3 ? 1.25 : 0.001);
  for (int i = 0; i < TS * TS; i++) {
    double dx = i % TS + 0.5 - x, dy = i / TS + 0.5 - y;
    double d2 = dx * dx + dy * dy;
    if (opa[i]) vp_assert(d2 <= limit * limit, "nothing is painted beyond the radius");
    vp_assert(opa[i] <= 32768 * (1.0 - softness) + 2, "softness limits the opacity");
    if (radius >= 3) {
      double yr = (dy * cosv[gi] - dx * sinv[gi]) * aspect, xr = dy * sinv[gi] + dx * cosv[gi];
      double rr = (yr * yr + xr * xr) / ((double)radius * radius);
      double want = 0, h = hardness;
      if (rr <= h) want = 1 - rr * (1 / h - 1);
      else if (rr <= 1) want = h / (1 - h) * (1 - rr);
      want *= 32768 * (1.0 - softness);
      /* the hard edge of a full hardness dab is a step: no value is expected right on it */
      if (hardness < 1 || rr < 0.9999 || rr > 1.0001)
        vp_assert(opa[i] - want <= 3 && want - opa[i] <= 3, "the opacity falls off with the square of the distance as documented");
    }
  }
  vp_obs_u("first", opa[0]);
}
