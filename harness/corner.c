/* P29: where four tiles meet, a sample sees what was drawn before on every tile it looks at, and a dab is rendered on each tile it touches */
#define OWN_BLEND
#include "surf.h"
static uint16_t tiles[4][TS * TS * 4];
static int count[4], want[4], seen[4], open_requests;
static int tile_of(uint16_t *p) { for (int i = 0; i < 4; i++) if (p == tiles[i]) return i; vp_assert(0, "a requested tile"); return 0; }
static void rec(uint16_t *p) { int t = tile_of(p); vp_assert(open_requests >= 1, "only while the tile is requested"); count[t]++; }
void draw_dab_pixels_BlendMode_Normal(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { rec(p); }
void draw_dab_pixels_BlendMode_Normal_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
void draw_dab_pixels_BlendMode_Color(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
void draw_dab_pixels_BlendMode_Posterize(uint16_t *m, uint16_t *p, uint16_t o, uint16_t n) { }
void draw_dab_pixels_BlendMode_Normal_and_Eraser(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) { rec(p); }
void draw_dab_pixels_BlendMode_Normal_and_Eraser_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) { }
void draw_dab_pixels_BlendMode_LockAlpha(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
void draw_dab_pixels_BlendMode_LockAlpha_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
void get_color_pixels_accumulate(uint16_t *m, uint16_t *p, float *w, float *r, float *g, float *b, float *a, float paint, uint16_t i, float rate)
{
  int t = tile_of(p);
  vp_assert(count[t] == want[t], "the sample sees everything drawn on this tile before");
  seen[t] = 1;
  *w += 1; *a += 0.5f;
}
static int X0, Y0;
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r)
{
  int tx = r->tx - X0, ty = r->ty - Y0;
  vp_assert(tx >= 0 && tx < 2 && ty >= 0 && ty < 2, "no other tiles are requested");
  r->buffer = tiles[ty * 2 + tx];
  open_requests++;
}
static void end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { open_requests--; }
/* tiles within reach of a circle of the given radius around a position relative to the corner */
static int reach(int t, int ox, int oy, int rad) { return (t & 1 ? ox + rad >= 1 : ox - rad <= -1) && (t & 2 ? oy + rad >= 1 : oy - rad <= -1); }
void vp_main(void)
{
  MyPaintTiledSurface s;
  memset(&s, 0, sizeof s);
  mypaint_tiled_surface_init(&s, start, end);
  X0 = vp_i("x", -2, 1); X0 = vp_conc(X0);
  Y0 = -1 - X0;
  int cx = (X0 + 1) * TS, cy = (Y0 + 1) * TS, px[3], py[3];
  static const int offs[3] = {-4, 0, 4};
  mypaint_surface_begin_atomic(&s.parent);
  for (int i = 0; i < 2; i++) {
    int ix = vp_choice(i ? "bx" : "ax", 3), iy = vp_choice(i ? "by" : "ay", 3);
    Dab d = plain_dab(cx + offs[ix], cy + offs[iy], 1.75f);
    vp_assert(dab_draw(&s.parent, &d), "drawn");
    for (int t = 0; t < 4; t++) want[t] += reach(t, offs[ix], offs[iy], 2);
  }
  int sx = vp_choice("sx", 3), sy = vp_choice("sy", 3);
  float r, g, b, a = -1;
  mypaint_surface_get_color(&s.parent, cx + offs[sx], cy + offs[sy], 1.75f, &r, &g, &b, &a, 0.5f);
  for (int t = 0; t < 4; t++) vp_assert(!reach(t, offs[sx], offs[sy], 2) || seen[t], "every tile under the sample is looked at");
  vp_assert(a == 0.5f && open_requests == 0, "sampled");
  mypaint_surface_end_atomic(&s.parent, NULL);
  for (int t = 0; t < 4; t++) vp_assert(count[t] == want[t], "every dab is rendered once on every tile it touches");
  vp_assert(open_requests == 0, "every request is ended");
  mypaint_tiled_surface_destroy(&s);
  vp_no_leak("everything queued is released");
}
