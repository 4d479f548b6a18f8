/* P16: smudge buckets are separate, bounds-checked, reported and cleared */
#include "vp.h"
#include "mypaint-brush.h"
#include "jsonstub.h"
#ifndef NB
#define NB 3
#endif
#ifndef NOPS
#define NOPS 2
#endif
static float ref[NB][9];
static int lo = -1, hi = -1;
static gboolean set(MyPaintBrush *b, int i, const float *v)
{
  return mypaint_brush_set_smudge_bucket_state(b, i, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]);
}
static gboolean get(const MyPaintBrush *b, int i, float *v)
{
  return mypaint_brush_get_smudge_bucket_state(b, i, v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, v + 7, v + 8);
}
void vp_main(void)
{
  int with = vp_choice("buckets", 2);
  int n = with ? NB : 0;
  MyPaintBrush *b = mypaint_brush_new_with_buckets(n);
  vp_assert(b != NULL, "created");
  float val[NOPS][9];
  for (int k = 0; k < NOPS; k++) {
    int idx = vp_i("index", -1000, 1000);
    int op = vp_choice("op", 2);
    if (op == 0) {
      for (int c = 0; c < 9; c++) val[k][c] = vp_f("value", -1, 1);
      gboolean r = set(b, idx, val[k]);
      vp_assert(!!r == (idx >= 0 && idx < n), "setting succeeds exactly for existing buckets");
      if (r) {
        idx = vp_conc(idx);
        for (int c = 0; c < 9; c++) ref[idx][c] = val[k][c];
        if (lo == -1 || idx < lo) lo = idx;
        if (idx > hi) hi = idx;
      }
    } else {
      /* the reset that starts an unrelated stroke */
      mypaint_brush_reset(b);
      int r = mypaint_brush_stroke_to(b, NULL, 1, 2, 0, 0, 0, 0.01, 1, 0, 0, 0);
      (void)r;
      for (int i = 0; i < n; i++) for (int c = 0; c < 9; c++) ref[i][c] = 0;
      lo = hi = -1;
    }
    float out[9] = {7, 7, 7, 7, 7, 7, 7, 7, 7};
    int q = vp_i("query", -1000, 1000);
    gboolean r = get(b, q, out);
    vp_assert(!!r == (q >= 0 && q < n), "getting succeeds exactly for existing buckets");
    if (r) {
      q = vp_conc(q);
      for (int c = 0; c < 9; c++) vp_assert(out[c] == ref[q][c], "a bucket holds what was last set for it, or zero after a reset");
    } else
      for (int c = 0; c < 9; c++) vp_assert(out[c] == 7, "a failed get leaves the output alone");
    int rlo = mypaint_brush_get_min_smudge_bucket_used(b), rhi = mypaint_brush_get_max_smudge_bucket_used(b);
    if (n) {
      /* before the first stroke the whole range may count as used */
      vp_assert(rlo == lo && rhi == hi, "the used range is the range of the buckets written since the last reset");
    }
  }
  mypaint_brush_unref(b);
  vp_no_leak("the brush is released");
}
