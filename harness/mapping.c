/* P14: a mapping is its base value plus, per input with points, the piecewise linear curve through its points */
#include "vp.h"
#include "mypaint-mapping.h"
#ifndef NP
#define NP 3
#endif
static int near_(double a, double b, double tol) { return a - b <= tol && b - a <= tol; }
static const char *xn[] = {"x0", "x1", "x2", "x3"}, *yn[] = {"y0", "y1", "y2", "y3"};
static const float grids[5][4] = {{0, 1, 1, 3}, {-2, -1.75f, 1, 1.3f}, {-0.1f, -0.1f, 0.7f, 0.8f}, {0, 0.5f, 1, 2}, {0, 0, 0, 1}};
static const float shapes[3][4] = {{0, 1, -1, 2}, {1, 1, 0.25f, 0}, {-2, 0.5f, 0.5f, 0}};
#ifdef LONG
/* longer curves with fixed points */
void vp_main(void)
{
  static const int ns[5] = {5, 8, 9, 17, 64};
  int n = ns[vp_choice("n", 5)], shape = vp_choice("shape", 3), k = 0;
  float X[64], Y[64], v = vp_f("v", -20, 50);
  MyPaintMapping *m = mypaint_mapping_new(1);
  mypaint_mapping_set_n(m, 0, n);
  for (int i = 0; i < n; i++) {
    X[i] = shape == 0 ? i * 0.5f : shape == 1 ? (i - i % 3) * 0.5f - 2 : (i < n / 2 ? i * 0.25f : 20 + i * 0.25f);
    Y[i] = (i * 37 % 11) * 0.25f - 1;
    mypaint_mapping_set_point(m, 0, i, X[i], Y[i]);
  }
  double r = mypaint_mapping_calculate_single_input(m, v);
  while (k < n - 2 && v > X[k + 1]) k++;
  double want = X[k] == X[k + 1] ? Y[k] : Y[k] + ((double)Y[k + 1] - Y[k]) / ((double)X[k + 1] - X[k]) * ((double)v - X[k]);
  vp_assert(r - want <= 2e-3, "the value lies on the line through the two points around it");
  vp_assert(want - r <= 2e-3, "the value lies on the line through the two points around it");
  mypaint_mapping_free(m);
  vp_no_leak("the mapping");
}
#else
void vp_main(void)
{
  MyPaintMapping *m = mypaint_mapping_new(3);
  float X[4], Y[4];
  int n = 2 + vp_choice("n", NP - 1), in = vp_choice("in", 3);
  int shape = vp_choice("shape", 5);
  vp_assert(mypaint_mapping_is_constant(m) && mypaint_mapping_get_inputs_used_n(m) == 0, "a new mapping is constant");
  float base = vp_f("base", -10, 10);
  float data[3] = {7, 8, 9};
  data[in] = vp_f("v", -4, 4);
  mypaint_mapping_set_base_value(m, base);
  vp_assert(mypaint_mapping_get_base_value(m) == base, "the base value is kept");
  vp_assert(mypaint_mapping_calculate(m, data) == base, "a mapping without points is its base value");
  mypaint_mapping_set_n(m, in, n);
  for (int i = 0; i < n; i++) {
#ifdef FREEX   /* free x coordinates, a few shapes */
    X[i] = vp_f(xn[i], -2, 2); Y[i] = shapes[shape][i];
    if (i) vp_assume(X[i] == X[i - 1] || X[i] >= X[i - 1] + 0.0625f);
#else          /* free y coordinates, a few spacings (with coinciding points) */
    X[i] = grids[shape][i]; Y[i] = vp_f(yn[i], -2, 2);
#endif
    mypaint_mapping_set_point(m, in, i, X[i], Y[i]);
  }
  for (int i = 0; i < n; i++) {
    float x, y;
    mypaint_mapping_get_point(m, in, i, &x, &y);
    vp_assert(x == X[i] && y == Y[i], "points read back as they were set");
  }
  vp_assert(!mypaint_mapping_is_constant(m) && mypaint_mapping_get_inputs_used_n(m) == 1 && mypaint_mapping_get_n(m, in) == n, "one input is used");
  double r = mypaint_mapping_calculate(m, data), v = data[in], b = base;
  /* the segment the value lies on: the first whose right end is not left of it (the last one beyond the last point) */
  int k = 0;
  while (k < n - 2 && data[in] > X[k + 1]) k++;
  double x0 = X[k], x1 = X[k + 1], y0 = Y[k], y1 = Y[k + 1];
  if (X[k] == X[k + 1]) {
    vp_assert(near_(r, b + y0, 1e-5), "a vertical segment has the value of its first point");
  } else {
    double want = y0 + (y1 - y0) * ((v - x0) / (x1 - x0));
    vp_assert(near_((r - b) * (x1 - x0), y0 * (x1 - x0) + (y1 - y0) * (v - x0), 1e-4), "the value lies on the line through the two points around it");
    if (data[in] >= X[k] && data[in] <= X[k + 1])
      vp_assert(r - b <= (y0 > y1 ? y0 : y1) + 1e-4 && r - b >= (y0 < y1 ? y0 : y1) - 1e-4, "between two points the value stays between theirs");
    (void)want;
  }
  if (data[in] == X[0]) vp_assert(near_(r, b + Y[0], 1e-4), "the curve goes through its first point");
  vp_obs_f("r", r);
  mypaint_mapping_free(m);
  vp_no_leak("the mapping");
}
#endif
