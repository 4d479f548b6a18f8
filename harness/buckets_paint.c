/* P16: painting smudges through the selected bucket only */
#include "vp.h"
#include "mypaint-brush.h"
#include "jsonstub.h"
#define NB 3
static int ndabs;
static float dab_r, dab_a, dab_op;
static int draw_dab(MyPaintSurface *s, float x, float y, float radius, float r, float g, float b, float opaque, float hardness, float softness, float alpha_eraser,
                    float aspect_ratio, float angle, float lock_alpha, float colorize, float posterize, float posterize_num, float paint)
{ ndabs++; dab_r = r; dab_a = alpha_eraser; dab_op = opaque; return 1; }
static float cr, ca;
static void get_color(MyPaintSurface *s, float x, float y, float radius, float *r, float *g, float *b, float *a, float paint)
{ *r = cr; *g = cr; *b = cr; *a = ca; }
static void set(MyPaintBrush *b, MyPaintBrushSetting s, float v) { mypaint_brush_set_base_value(b, s, v); }
void vp_main(void)
{
  MyPaintSurface surf;
  memset(&surf, 0, sizeof surf);
  surf.draw_dab = draw_dab;
  surf.get_color = get_color;
  MyPaintBrush *b = mypaint_brush_new_with_buckets(NB);
  set(b, MYPAINT_BRUSH_SETTING_RADIUS_LOGARITHMIC, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_OPAQUE, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_OPAQUE_LINEARIZE, 0.0f);
  set(b, MYPAINT_BRUSH_SETTING_HARDNESS, 0.5f);
  set(b, MYPAINT_BRUSH_SETTING_DABS_PER_BASIC_RADIUS, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_ELLIPTICAL_DAB_RATIO, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_SMUDGE, 1.0f);
  set(b, MYPAINT_BRUSH_SETTING_SMUDGE_LENGTH, 0.5f);
  float which = vp_f("bucket setting", -6, 9);
  set(b, MYPAINT_BRUSH_SETTING_SMUDGE_BUCKET, which);
  mypaint_brush_stroke_to(b, &surf, 0, 0, 0, 0, 0, 0.01, 1, 0, 0, 0);
  /* takes over the dab spacing */
  mypaint_brush_stroke_to(b, &surf, 0, 0, 0, 0, 0, 0.01, 1, 0, 0, 0);
  float v[NB][9], w[9];
  for (int i = 0; i < NB; i++) {
    for (int c = 0; c < 9; c++) v[i][c] = vp_f("state", 0, 1);
    if (vp_choice("preset", 2))
      mypaint_brush_set_smudge_bucket_state(b, i, v[i][0], v[i][1], v[i][2], v[i][3], v[i][4], v[i][5], v[i][6], v[i][7], v[i][8] = 0);
    else
      for (int c = 0; c < 9; c++) v[i][c] = 0;
  }
  cr = vp_f("canvas colour", 0, 1);
  ca = 0;
  if (vp_choice("opaque canvas", 2)) ca = vp_f("canvas alpha", 0.001f, 1);
  mypaint_brush_stroke_to(b, &surf, 3, 0, 0, 0, 0, 0.01, 1, 0, 0, 0);
  vp_assert(ndabs == 1, "one dab");
  int lo = mypaint_brush_get_min_smudge_bucket_used(b), hi = mypaint_brush_get_max_smudge_bucket_used(b);
  for (int i = 0; i < NB; i++) {
    int mine = (i == 0 ? which < 0.5f : which >= i - 0.5f) && (i == NB - 1 ? 1 : which < i + 0.5f);
    vp_assert(mypaint_brush_get_smudge_bucket_state(b, i, w, w + 1, w + 2, w + 3, w + 4, w + 5, w + 6, w + 7, w + 8), "readable");
    if (mine) {
      vp_assert(lo <= i && i <= hi, "the bucket painted with counts as used");
      vp_assert(w[4] == cr && w[7] == ca, "the bucket painted with remembers the sampled colour");
      vp_assert(w[3] - ca <= 1e-5f && ca - w[3] <= 1e-5f, "a fresh bucket takes over the sampled alpha");
      vp_assert(w[0] - ca * cr <= 1e-5f && ca * cr - w[0] <= 1e-5f, "a fresh bucket takes over the sampled colour");
    } else
      for (int c = 0; c < 9; c++) vp_assert(w[c] == v[i][c], "other buckets are left alone");
  }
  vp_assert(dab_a - ca <= 1e-5f && ca - dab_a <= 1e-5f, "the dab erases towards the smudged alpha");
  mypaint_brush_unref(b);
  vp_no_leak("the brush is released");
}
