#include "blend.h"
/* P03: exactly the masked pixels are blended, each as if it were alone */
void vp_main(void)
{
  int pat = vp_choice("pattern", 8);      /* which of the three pixels the mask covers */
  uint16_t px[5][4], old[3][4], alone[4], mask[16];
  unsigned cr = vp_u("cr", 0, ONE), cg = vp_u("cg", 0, ONE), cb = vp_u("cb", 0, ONE), ca = vp_u("ca", 1, MODE == M_POSTERIZE ? 128 : ONE), op = vp_u("op", 0, ONE);
  int n = 0, skip = 0;
  uint16_t mv[3] = {0, 0, 0};
  for (int i = 0; i < 3; i++) {
    unsigned a = vp_u("a", 0, ONE), r = vp_u("r", 0, ONE), g = vp_u("g", 0, ONE), b = vp_u("b", 0, ONE);
    vp_assume(r <= a); vp_assume(g <= a); vp_assume(b <= a);
    px[i + 1][0] = old[i][0] = r; px[i + 1][1] = old[i][1] = g; px[i + 1][2] = old[i][2] = b; px[i + 1][3] = old[i][3] = a;
    if (pat >> i & 1) {
      if (skip) { mask[n++] = 0; mask[n++] = skip * 4; skip = 0; }
      mv[i] = vp_u("m", 1, ONE);
      mask[n++] = mv[i];
    } else skip++;
  }
  mask[n++] = 0; mask[n++] = 0;
  for (int c = 0; c < 4; c++) { px[0][c] = 7000 + c; px[4][c] = 8000 + c; }
  call_blend(MODE, mask, px[1], cr, cg, cb, ca, op);
  for (int i = 0; i < 3; i++) {
    if (!mv[i]) {
      vp_assert(px[i + 1][0] == old[i][0] && px[i + 1][1] == old[i][1] && px[i + 1][2] == old[i][2] && px[i + 1][3] == old[i][3],
                "a pixel the mask does not cover is untouched");
    } else if (!IS_PAINT(MODE)) {
      uint16_t one[3] = {mv[i], 0, 0};
      for (int c = 0; c < 4; c++) alone[c] = old[i][c];
      call_blend(MODE, one, alone, cr, cg, cb, ca, op);
      vp_assert(px[i + 1][0] == alone[0] && px[i + 1][1] == alone[1] && px[i + 1][2] == alone[2] && px[i + 1][3] == alone[3],
                "a masked pixel is blended as if it were alone");
    } else vp_assert(px[i + 1][3] <= ONE, "alpha stays within full opacity");
  }
  for (int c = 0; c < 4; c++) vp_assert(px[0][c] == 7000 + c && px[4][c] == 8000 + c, "pixels outside the buffer are untouched");
  vp_obs_u("a", px[2][3]);
}
