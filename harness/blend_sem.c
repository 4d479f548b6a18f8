#include "blend.h"
/* P04: the value each blend mode gives, against the over operator in exact arithmetic */
static double spec_mix(double opa, double top, double bot) { return (opa * top + (32768.0 - opa) * bot) / 32768.0; }
static int spec_near(double a, double b, double tol) { return a - b <= tol && b - a <= tol; }
void vp_main(void)
{
  unsigned a = vp_u("a", 0, ONE), r = vp_u("r", 0, ONE), g = vp_u("g", 0, ONE), b = vp_u("b", 0, ONE);
  vp_assume(r <= a); vp_assume(g <= a); vp_assume(b <= a);
  unsigned m = vp_u("m", 1, ONE), op = vp_u("op", 0, ONE);
  unsigned cr = 0, cg = 0, cb = 0, ca = ONE;
  if (MODE == M_POSTERIZE) ca = vp_u("num", 1, 128);
  else {
    cr = vp_u("cr", 0, ONE); cg = vp_u("cg", 0, ONE); cb = vp_u("cb", 0, ONE);
    if (MODE == M_ERASER || MODE == M_ERASER_P) ca = vp_u("ca", 0, ONE);
  }
  int part = vp_choice("part", 5);
  if (part == 0) vp_assume(op == 0);
  if (part == 1) { vp_assume(op == ONE); vp_assume(m == ONE); }
  if (part == 2) { vp_assume(a == 0); }
  if (part == 4) { vp_assume(op >= 150); vp_assume(a > 0); }  /* the pigment modes use at least this opacity */
  uint16_t px[4] = {r, g, b, a};
  uint16_t mask[3] = {m, 0, 0};
  call_blend(MODE, mask, px, cr, cg, cb, ca, op);
  double R = px[0], G = px[1], B = px[2], A = px[3];
  double opa = m * (double)op / 32768.0, topa = opa * ca / 32768.0, rest = 32768.0 - opa;
  switch (MODE) {
  case M_NORMAL:
    vp_assert(spec_near(A, spec_mix(opa, 32768, a), 2.5), "alpha is composed by the over operator");
    vp_assert(spec_near(R, spec_mix(opa, cr, r), 2.5) && spec_near(G, spec_mix(opa, cg, g), 2.5) && spec_near(B, spec_mix(opa, cb, b), 2.5), "colours are composed by the over operator");
    break;
  case M_ERASER:
    vp_assert(spec_near(A, topa + rest * a / 32768.0, 3.5), "alpha is composed with the dab's alpha");
    vp_assert(spec_near(R, (topa * cr + rest * r) / 32768.0, 3.5) && spec_near(G, (topa * cg + rest * g) / 32768.0, 3.5) &&
              spec_near(B, (topa * cb + rest * b) / 32768.0, 3.5), "colours are composed with the dab's alpha");
    break;
  case M_LOCK:
    vp_assert(px[3] == a, "alpha is unchanged");
    vp_assert(spec_near(R, spec_mix(opa, cr * (double)a / 32768.0, r), 3.5) && spec_near(G, spec_mix(opa, cg * (double)a / 32768.0, g), 3.5) &&
              spec_near(B, spec_mix(opa, cb * (double)a / 32768.0, b), 3.5), "colours are composed within the pixel's alpha");
    break;
  case M_COLOR:
    vp_assert(px[3] == a, "alpha is unchanged");
    break;
  case M_POSTERIZE:
    vp_assert(px[3] == a, "alpha is unchanged");
    break;
  }
  if (part == 0 && !IS_PAINT(MODE))
    vp_assert(px[0] == r && px[1] == g && px[2] == b && px[3] == a, "a blend of zero opacity changes nothing");
  if (part == 1 && (MODE == M_NORMAL || MODE == M_ERASER)) {
    vp_assert(px[3] == ca, "full opacity replaces the alpha");
    if (MODE == M_NORMAL) vp_assert(px[0] == cr && px[1] == cg && px[2] == cb, "full opacity replaces the colour");
    if (ca == 0) vp_assert(px[0] == 0 && px[1] == 0 && px[2] == 0, "full erasing leaves an empty pixel");
  }
  if (part == 1 && MODE == M_LOCK && a == ONE)
    vp_assert(px[0] == cr && px[1] == cg && px[2] == cb, "full opacity replaces the colour");
  if (part == 2 && (MODE == M_LOCK || MODE == M_LOCK_P || MODE == M_COLOR || MODE == M_POSTERIZE))
    vp_assert(px[0] == 0 && px[1] == 0 && px[2] == 0 && px[3] == 0, "a transparent pixel stays transparent");
  if (part == 2 && MODE == M_NORMAL_P) {
    double o2 = m * (double)(op < 150 ? 150 : op) / 32768.0;
    vp_assert(spec_near(A, o2, 1.5) && spec_near(R, o2 * cr / 32768.0, 2.5) && spec_near(G, o2 * cg / 32768.0, 2.5) && spec_near(B, o2 * cb / 32768.0, 2.5),
              "painting on a transparent pixel gives the dab's colour");
  }
  if (part == 4 && MODE == M_NORMAL_P) vp_assert(spec_near(A, spec_mix(opa, 32768, a), 2.5), "alpha is composed by the over operator");
  if (part == 4 && MODE == M_ERASER_P) vp_assert(spec_near(A, topa + rest * a / 32768.0, 3.5), "alpha is composed with the dab's alpha");
  if (part == 4 && MODE == M_LOCK_P) vp_assert(px[3] == a, "alpha is unchanged");
  vp_obs_u("a", px[3]);
  if (!IS_PAINT(MODE)) { vp_obs_u("r", px[0]); vp_obs_u("g", px[1]); vp_obs_u("b", px[2]); }
}
