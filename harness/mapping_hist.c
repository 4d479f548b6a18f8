/* P14: bookkeeping of the points over a history of changes; several inputs add up */
#include "vp.h"
#include "mypaint-mapping.h"
#ifndef NOPS
#define NOPS 4
#endif
static const int counts[4] = {0, 2, 3, 64};
static int near_(double a, double b, double tol) { return a - b <= tol && b - a <= tol; }
void vp_main(void)
{
  MyPaintMapping *m = mypaint_mapping_new(3);
  int n[3] = {0, 0, 0};
  float y[3] = {0, 0, 0};
  float base = vp_f("base", -10, 10);
  float data[3];
  for (int i = 0; i < 3; i++) data[i] = 0.3f * i;
  mypaint_mapping_set_base_value(m, base);
  char ni[3] = "i0", nn[3] = "n0";
  for (int k = 0; k < NOPS; k++) {
    ni[1] = nn[1] = '0' + k;
    int in = vp_choice(ni, 2), c = counts[vp_choice(nn, 4)];
    in = in ? 2 : 0;
    mypaint_mapping_set_n(m, in, c);
    n[in] = c;
    if (c) {  /* a flat curve */
      y[in] = vp_f("y", -5, 5);
      for (int i = 0; i < c; i++) mypaint_mapping_set_point(m, in, i, i / 64.0f, y[in]);
    }
    int used = 0;
    for (int i = 0; i < 3; i++) {
      used += n[i] > 0;
      vp_assert(mypaint_mapping_get_n(m, i) == n[i], "the number of points is kept per input");
    }
    vp_assert(mypaint_mapping_get_inputs_used_n(m) == used, "the number of inputs with points");
    vp_assert(!!mypaint_mapping_is_constant(m) == (used == 0), "constant exactly when no input has points");
    double want = base;
    for (int i = 0; i < 3; i++) if (n[i]) want += y[i];
    vp_assert(near_(mypaint_mapping_calculate(m, data), want, 1e-4), "the curves of all inputs add up");
    for (int i = 0; i < 3; i++) if (n[i]) {
      float px, py;
      mypaint_mapping_get_point(m, i, n[i] - 1, &px, &py);
      vp_assert(px == (n[i] - 1) / 64.0f && py == y[i], "the last point is kept");
    }
  }
  vp_assert(mypaint_mapping_get_base_value(m) == base, "the base value is kept");
  vp_obs_f("r", mypaint_mapping_calculate(m, data));
  mypaint_mapping_free(m);
  vp_no_leak("the mapping");
}
