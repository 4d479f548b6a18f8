/* one symbolic valid pixel, one symbolic blend call */
#include "vp.h"
#include "brushmodes.h"
#include "stub_fastpow.h"
#define ONE 32768u
enum { M_NORMAL, M_ERASER, M_LOCK, M_COLOR, M_POSTERIZE, M_NORMAL_P, M_ERASER_P, M_LOCK_P };
#define IS_PAINT(m) ((m) >= M_NORMAL_P)
static void call_blend(int mode, uint16_t *mask, uint16_t *rgba, unsigned cr, unsigned cg, unsigned cb, unsigned ca, unsigned op)
{
  switch (mode) {
  case M_NORMAL: draw_dab_pixels_BlendMode_Normal(mask, rgba, cr, cg, cb, op); break;
  case M_NORMAL_P: draw_dab_pixels_BlendMode_Normal_Paint(mask, rgba, cr, cg, cb, op); break;
  case M_ERASER: draw_dab_pixels_BlendMode_Normal_and_Eraser(mask, rgba, cr, cg, cb, ca, op); break;
  case M_ERASER_P: draw_dab_pixels_BlendMode_Normal_and_Eraser_Paint(mask, rgba, cr, cg, cb, ca, op); break;
  case M_LOCK: draw_dab_pixels_BlendMode_LockAlpha(mask, rgba, cr, cg, cb, op); break;
  case M_LOCK_P: draw_dab_pixels_BlendMode_LockAlpha_Paint(mask, rgba, cr, cg, cb, op); break;
  case M_COLOR: draw_dab_pixels_BlendMode_Color(mask, rgba, cr, cg, cb, op); break;
  case M_POSTERIZE: draw_dab_pixels_BlendMode_Posterize(mask, rgba, op, ca); break;
  }
}
