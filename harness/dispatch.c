/* P30: what a queued dab does to a tile: which blend operations run, with which opacity and colour,
 * and in which order (blend functions and mask are recorders) */
#define OWN_BLEND
#include "surf.h"
typedef struct { int mode; unsigned r, g, b, a, o; } Call;
static Call calls[16];
static int ncalls;
static uint16_t *got_px;
static void rec(int mode, uint16_t *p, unsigned r, unsigned g, unsigned b, unsigned a, unsigned o)
{
  Call c = {mode, r, g, b, a, o};
  if (ncalls < 16) calls[ncalls] = c;
  ncalls++;
  got_px = p;
}
enum { NORMAL, NORMAL_P, COLOR, POST, ERASE, ERASE_P, LOCK, LOCK_P };
void draw_dab_pixels_BlendMode_Normal(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { rec(NORMAL, p, r, g, b, 32768, o); }
void draw_dab_pixels_BlendMode_Normal_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { rec(NORMAL_P, p, r, g, b, 32768, o); }
void draw_dab_pixels_BlendMode_Color(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { rec(COLOR, p, r, g, b, 0, o); }
void draw_dab_pixels_BlendMode_Posterize(uint16_t *m, uint16_t *p, uint16_t o, uint16_t n) { rec(POST, p, 0, 0, 0, n, o); }
void draw_dab_pixels_BlendMode_Normal_and_Eraser(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) { rec(ERASE, p, r, g, b, a, o); }
void draw_dab_pixels_BlendMode_Normal_and_Eraser_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) { rec(ERASE_P, p, r, g, b, a, o); }
void draw_dab_pixels_BlendMode_LockAlpha(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { rec(LOCK, p, r, g, b, 0, o); }
void draw_dab_pixels_BlendMode_LockAlpha_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { rec(LOCK_P, p, r, g, b, 0, o); }
void get_color_pixels_accumulate(uint16_t *m, uint16_t *p, float *w, float *r, float *g, float *b, float *a, float paint, uint16_t i, float rate) {}
static uint16_t tile[TS * TS * 4];
static int req;
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r)
{
  vp_assert(req == 0, "one tile request at a time");
  vp_assert(r->tx == 0 && r->ty == 0 && !r->readonly && r->mipmap_level == 0, "the dab's tile is requested for writing");
  req++;
  r->buffer = tile;
}
static int ended;
static void end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { vp_assert(req == 1 && r->buffer == tile, "every request is ended"); req--; ended++; }
static int spec_near(double a, double b, double tol) { return a - b <= tol && b - a <= tol; }
static double total(int m1, int m2) { double t = 0; for (int i = 0; i < ncalls; i++) if (calls[i].mode == m1 || calls[i].mode == m2) t += calls[i].o; return t; }
static const float quarters[3] = {0.0f, 0.25f, 1.0f};
void vp_main(void)
{
  MyPaintTiledSurface s;
  mypaint_tiled_surface_init(&s, start, end);
  mypaint_surface_begin_atomic(&s.parent);
  Dab d = plain_dab(TS / 2, TS / 2, 0.5f);
  d.lock = quarters[vp_choice("lock", 3)];
  d.colorize = quarters[vp_choice("colorize", 3)];
  d.posterize = quarters[vp_choice("posterize", 3)];
  d.paint = quarters[vp_choice("paint", 3)];
  float alphas[3] = {0.0f, 1.0f, 0.5f};
  d.color_a = alphas[vp_choice("alpha", 3)];
  d.opaque = vp_f("opaque", 0.001f, 1.0f);
  d.r = vp_f("r", 0, 1); d.g = vp_f("g", 0, 1); d.b = vp_f("b", 0, 1);
  d.num = 0.05f;
  vp_assert(dab_draw(&s.parent, &d) != 0, "visible");
  vp_assert(ncalls == 0 && ended == 0, "nothing is rendered before the transaction ends");
  mypaint_surface_end_atomic(&s.parent, NULL);
  vp_assert(req == 0 && ended == 1, "the tile was requested once and given back");
  vp_assert(ncalls <= 16, "no blend runs twice");
  double op = d.opaque, normal = (1.0 - d.lock) * (1.0 - d.colorize) * (1.0 - d.posterize), lock = d.lock * (1.0 - d.colorize) * (1.0 - d.posterize);
  double pp = d.paint, tol = 1.1;
  if (d.color_a == 1.0f) {
    vp_assert(spec_near(total(NORMAL, -1), normal * (1 - pp) * op * 32768.0, tol), "additive share of a normal dab");
    vp_assert(spec_near(total(NORMAL_P, -1), normal * pp * op * 32768.0, tol), "pigment share of a normal dab");
    vp_assert(total(ERASE, ERASE_P) == 0, "an opaque dab does not erase");
  } else {
    vp_assert(spec_near(total(ERASE, -1), normal * (1 - pp) * op * 32768.0, tol), "additive share of an erasing dab");
    vp_assert(spec_near(total(ERASE_P, -1), normal * pp * op * 32768.0, tol), "pigment share of an erasing dab");
    vp_assert(total(NORMAL, NORMAL_P) == 0, "a smudging or erasing dab does not paint at full alpha");
  }
  if (d.color_a != 0) {
    vp_assert(spec_near(total(LOCK, -1), lock * (1 - pp) * op * 32768.0, tol), "additive share of an alpha-locked dab");
    vp_assert(spec_near(total(LOCK_P, -1), lock * pp * op * 32768.0, tol), "pigment share of an alpha-locked dab");
  } else vp_assert(total(LOCK, LOCK_P) == 0, "a fully transparent dab does nothing to a locked pixel");
  vp_assert(spec_near(total(COLOR, -1), d.colorize * op * 32768.0, tol), "share of colorize");
  vp_assert(spec_near(total(POST, -1), d.posterize * op * 32768.0, tol), "share of posterize");
  double cr = d.r, cg = d.g, cb = d.b, ca = d.color_a;
  for (int i = 0; i < ncalls; i++) {
    if (calls[i].mode == POST) vp_assert(calls[i].a == 5, "posterize level");
    else {
      vp_assert(spec_near(calls[i].r, cr * 32768.0, 1) && spec_near(calls[i].g, cg * 32768.0, 1) && spec_near(calls[i].b, cb * 32768.0, 1), "the dab's colour is used");
      if (calls[i].mode == ERASE || calls[i].mode == ERASE_P) vp_assert(spec_near(calls[i].a, ca * 32768.0, 1), "the dab's alpha is used");
    }
    /* the minimum opacity of the pigment modes makes a call with zero weight visible */
    if (calls[i].mode == NORMAL_P || calls[i].mode == ERASE_P || calls[i].mode == LOCK_P) vp_assert(d.paint > 0, "no pigment blend for a purely additive dab");
    for (int j = 0; j < i; j++) vp_assert(calls[j].mode != calls[i].mode, "no blend runs twice");
  }
  vp_assert(got_px == tile || ncalls == 0, "the tile's pixels are blended");
  vp_obs_u("n", ncalls);
}
