#include "blend.h"
/* P01/P02: one pixel, every valid pixel / colour / mask / opacity */
void vp_main(void)
{
  unsigned a = vp_u("a", 0, ONE), r = vp_u("r", 0, ONE), g = vp_u("g", 0, ONE), b = vp_u("b", 0, ONE);
  vp_assume(r <= a); vp_assume(g <= a); vp_assume(b <= a);
  unsigned m = vp_u("m", 1, ONE), op = vp_u("op", 0, ONE);
  unsigned cr = 0, cg = 0, cb = 0, ca = ONE;
  if (MODE == M_POSTERIZE) ca = vp_u("num", 1, 128);
  else {
    cr = vp_u("cr", 0, ONE); cg = vp_u("cg", 0, ONE); cb = vp_u("cb", 0, ONE);
    if (MODE == M_ERASER || MODE == M_ERASER_P) ca = vp_u("ca", 0, ONE);
  }
  uint16_t px[12] = {11, 12, 13, 14, r, g, b, a, 21, 22, 23, 24};
  uint16_t mask[3] = {m, 0, 0};
  call_blend(MODE, mask, px + 4, cr, cg, cb, ca, op);
#ifdef WHAT_VALID
  vp_assert(px[7] <= ONE, "alpha stays within full opacity");
  vp_assert(px[4] <= px[7], "red stays within alpha");
  vp_assert(px[5] <= px[7], "green stays within alpha");
  vp_assert(px[6] <= px[7], "blue stays within alpha");
#endif
#ifdef WHAT_ALPHA
  switch (MODE) {
  case M_LOCK: case M_LOCK_P: case M_COLOR: case M_POSTERIZE:
    vp_assert(px[7] == a, "alpha is unchanged");
    if (a == 0) vp_assert(px[4] == 0 && px[5] == 0 && px[6] == 0, "transparent pixel stays empty");
    break;
  case M_NORMAL: case M_NORMAL_P:
    vp_assert(px[7] >= a || px[7] + 1 >= a, "painting never lowers alpha");
    break;
  default:
    break;
  }
#endif
  vp_obs_u("a", px[7]); vp_obs_u("r", px[4]); vp_obs_u("g", px[5]); vp_obs_u("b", px[6]);
}
