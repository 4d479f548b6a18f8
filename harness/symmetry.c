/* P13: a dab is repeated at exactly the places the symmetry prescribes, with the ellipse turned accordingly,
 * and a changed symmetry applies from the next transaction on */
#include "surf.h"
#define MAXN 14
#ifndef R
#define R 40
#endif
static int n_want;
static double wx[MAXN], wy[MAXN], wa[MAXN];
static void want(double x, double y, double a) { wx[n_want] = x; wy[n_want] = y; wa[n_want] = a; n_want++; }
/* angles are counter-clockwise on the screen for the symmetry lines: y grows downwards */
static void rotated(double x, double y, double a, double cx, double cy, double deg)
{
  double t = deg * M_PI / 180, c = cos(t), s = sin(t);
  want(cx + c * (x - cx) + s * (y - cy), cy - s * (x - cx) + c * (y - cy), a - deg);
}
static void mirrored(double x, double y, double a, double cx, double cy, double deg)
{
  double t = -2 * deg * M_PI / 180, c = cos(t), s = sin(t);
  want(cx + c * (x - cx) + s * (y - cy), cy + s * (x - cx) - c * (y - cy), -2 * deg - a);
}
static void expect(int type, int lines, double cx, double cy, double deg, double x, double y, double a)
{
  n_want = 0;
  want(x, y, a);
  if (lines < 2) lines = 2;
  switch (type) {
  case MYPAINT_SYMMETRY_TYPE_VERTICAL: mirrored(x, y, a, cx, cy, deg + 90); break;
  case MYPAINT_SYMMETRY_TYPE_HORIZONTAL: mirrored(x, y, a, cx, cy, deg); break;
  case MYPAINT_SYMMETRY_TYPE_VERTHORZ: mirrored(x, y, a, cx, cy, deg); rotated(x, y, a, cx, cy, 180); mirrored(x, y, a, cx, cy, deg + 90); break;
  case MYPAINT_SYMMETRY_TYPE_SNOWFLAKE:
    for (int i = 0; i < lines; i++) mirrored(x, y, a, cx, cy, deg + i * 180.0 / lines);
    /* fall through */
  case MYPAINT_SYMMETRY_TYPE_ROTATIONAL:
    for (int i = 1; i < lines; i++) rotated(x, y, a, cx, cy, i * 360.0 / lines);
  }
}
static const float angles[5] = {0.0f, 30.0f, 90.0f, -45.0f, 200.0f};
static void check(MyPaintTiledSurface *s, const Dab *d)
{
  TileIndex t = {0, 0};
  int hits[MAXN];
  for (int k = 0; k < n_want; k++) hits[k] = 0;
  for (int i = 0; i < n_want; i++) {
    OperationDataDrawDab *op = operation_queue_pop(s->operation_queue, t);
    vp_assert(op != NULL, "there is a dab for every copy");
    int sel = -1;
    for (int k = 0; k < n_want && sel < 0; k++) {
      double q = (op->angle - wa[k]) / 180.0, f = floor(q + 0.5);
      if (hits[k] || q - f > 1e-4 || f - q > 1e-4) continue;
      double ex = op->x - wx[k], ey = op->y - wy[k];
      if (ex < 5) if (ex > -5) if (ey < 5) if (ey > -5) sel = k;
    }
    vp_assert(sel >= 0, "every dab is one of the copies the symmetry prescribes");
    double ex = op->x - wx[sel], ey = op->y - wy[sel];
    hits[sel] = 1;
    vp_assert(ex < 0.01, "the copy is not too far right");
    vp_assert(ex > -0.01, "the copy is not too far left");
    vp_assert(ey < 0.01, "the copy is not too low");
    vp_assert(ey > -0.01, "the copy is not too high");
    vp_assert(op->radius == d->radius && op->aspect_ratio == d->aspect && op->hardness == d->hardness, "the copies look alike");
    free(op);
  }
  vp_assert(operation_queue_pop(s->operation_queue, t) == NULL, "no more dabs than copies");
}
void vp_main(void)
{
  MyPaintTiledSurface s;
  memset(&s, 0, sizeof s);
  mypaint_tiled_surface_init(&s, no_tile_start, no_tile_end);
  int type = vp_choice("type", 5), lines = vp_choice("lines", 8), ai = vp_choice("angle", 5), when = vp_choice("when", 11);
  float cx = 500, cy = 531;
  float x = vp_f("x", 512, 512 + R), y = vp_f("y", 512 - R, 512 + R), da = 37.0f;
  Dab d = plain_dab(x, y, 2.0f);
  d.aspect = 3.0f;
  d.angle = da;
  if (when == 1) {          /* changes of an active symmetry wait for the next transaction */
    mypaint_tiled_surface_set_symmetry_state(&s, 1, 500, 520, 20, MYPAINT_SYMMETRY_TYPE_ROTATIONAL, 3);
    mypaint_surface_begin_atomic(&s.parent);
    mypaint_tiled_surface_set_symmetry_state(&s, 1, cx, cy, angles[ai], type, lines);
    dab_draw(&s.parent, &d);
    expect(MYPAINT_SYMMETRY_TYPE_ROTATIONAL, 3, 500, 520, 20, x, y, da);
    check(&s, &d);
    mypaint_surface_end_atomic(&s.parent, NULL);
  } else if (when == 3) {   /* without memory for the new symmetry the dab itself is still drawn */
    mypaint_tiled_surface_set_symmetry_state(&s, 1, 500, 520, 20, MYPAINT_SYMMETRY_TYPE_ROTATIONAL, 3);
    mypaint_surface_begin_atomic(&s.parent);
    mypaint_tiled_surface_set_symmetry_state(&s, 1, cx, cy, angles[ai], MYPAINT_SYMMETRY_TYPE_ROTATIONAL, 40);
    vp_fail_alloc(1);
    mypaint_surface_end_atomic(&s.parent, NULL);
    mypaint_surface_begin_atomic(&s.parent);
    vp_fail_alloc(0);
  } else if (when > 3) {    /* only one thing changes */
    float ox = cx + (when == 4) + 0.008f * (when == 10), oy = cy + (when == 5);
    int ot = when == 7 ? (type + 1) % 5 : type, ol = lines + 3 * (when == 8);
    mypaint_tiled_surface_set_symmetry_state(&s, 1, ox, oy, angles[ai] + (when == 6) + 0.008f * (when == 9), ot, ol);
    mypaint_surface_begin_atomic(&s.parent);
    mypaint_surface_end_atomic(&s.parent, NULL);
  }
  if (when == 0 || when == 2 || when > 3) mypaint_tiled_surface_set_symmetry_state(&s, 1, cx, cy, angles[ai], type, lines);
  if (when != 3) mypaint_surface_begin_atomic(&s.parent);
  if (when == 2) {          /* switched off */
    mypaint_tiled_surface_set_symmetry_state(&s, 0, cx, cy, angles[ai], type, lines);
    mypaint_surface_end_atomic(&s.parent, NULL);
    mypaint_surface_begin_atomic(&s.parent);
    n_want = 0;
    want(x, y, da);
  } else if (when == 3) {
    n_want = 0;
    want(x, y, da);
    TileIndex t = {0, 0};
    vp_assert(dab_draw(&s.parent, &d), "drawn");
    OperationDataDrawDab *op = operation_queue_pop(s.operation_queue, t);
    vp_assert(op && op->x == x && op->y == y, "the dab itself is there");
    free(op);
    while ((op = operation_queue_pop(s.operation_queue, t))) free(op);
    goto out;
  }
  else expect(type, lines, cx, cy, angles[ai], x, y, da);
  vp_assert(dab_draw(&s.parent, &d), "drawn");
  check(&s, &d);
out:
  mypaint_surface_end_atomic(&s.parent, NULL);
  mypaint_tiled_surface_destroy(&s);
  vp_no_leak("everything is released");
}
