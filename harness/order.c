/* P29: every dab is rendered exactly once on every tile it touches, in the order of the calls, however the calls are
 * grouped into transactions and whatever is sampled in between; what a failed tile request loses is only what was queued then */
#define OWN_BLEND
#include "surf.h"
#ifndef K
#define K 3
#endif
static uint16_t tiles[2][TS * TS * 4];
static int seq[2][16], nseq[2], sampled, sample_id, reqs, failing[2], lost[2], open_requests;
static void rec(uint16_t *p, unsigned r)
{
  int t = p == tiles[1];
  vp_assert(p == tiles[0] || p == tiles[1], "a requested tile is rendered to");
  vp_assert(open_requests >= 1, "a tile is rendered to only while it is requested");
  if (nseq[t] < 16) seq[t][nseq[t]++] = r;
}
void draw_dab_pixels_BlendMode_Normal(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { rec(p, r); }
void draw_dab_pixels_BlendMode_Normal_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
void draw_dab_pixels_BlendMode_Color(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
void draw_dab_pixels_BlendMode_Posterize(uint16_t *m, uint16_t *p, uint16_t o, uint16_t n) { }
void draw_dab_pixels_BlendMode_Normal_and_Eraser(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) { rec(p, r); }
void draw_dab_pixels_BlendMode_Normal_and_Eraser_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t a, uint16_t o) { }
void draw_dab_pixels_BlendMode_LockAlpha(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
void draw_dab_pixels_BlendMode_LockAlpha_Paint(uint16_t *m, uint16_t *p, uint16_t r, uint16_t g, uint16_t b, uint16_t o) { }
static int expect_seq[2][16], nexp[2];
static void compare(int t)
{
  vp_assert(nseq[t] == nexp[t], "every dab is rendered once on every tile it touches");
  for (int i = 0; i < nexp[t]; i++) vp_assert(seq[t][i] == expect_seq[t][i], "dabs are rendered in the order they were drawn");
}
void get_color_pixels_accumulate(uint16_t *m, uint16_t *p, float *w, float *r, float *g, float *b, float *a, float paint, uint16_t i, float rate)
{
  int t = p == tiles[1];
  vp_assert(p == tiles[0] || p == tiles[1], "a requested tile is sampled");
  compare(t);     /* sampling sees everything drawn before */
  sampled |= 1 << t;
  *w += 1; *a += 0.5f;
}
static int x0;
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r)
{
  int t = r->tx == x0 ? 0 : 1;
  vp_assert(r->ty == 0 && (r->tx == x0 || r->tx == x0 + 1), "no other tiles are requested");
  if (failing[t] && !r->readonly) { r->buffer = NULL; lost[t] = 1; return; }
  r->buffer = tiles[t];
  open_requests++;
  reqs++;
}
static void end(MyPaintTiledSurface *s, MyPaintTileRequest *r)
{
  vp_assert(r->buffer == tiles[r->tx != x0], "the request that ends is the one that was started");
  open_requests--;
}
static const float offs[3] = {4, 8, 12};
static MyPaintTiledSurface s;
static void draw(int id, int pos)
{
  Dab d = plain_dab(x0 * TS + offs[pos], 4, 1.5f);
  d.r = id / 32768.0f;
  d.color_a = (id & 1) ? 1.0f : 0.5f;
  vp_assert(dab_draw(&s.parent, &d), "drawn");
  if (pos < 2) expect_seq[0][nexp[0]++] = id;
  if (pos > 0) expect_seq[1][nexp[1]++] = id;
}
static void finish(int fail)
{
  int before[2] = {nseq[0], nseq[1]};
  failing[0] = fail == 1; failing[1] = fail == 2;
  mypaint_surface_end_atomic(&s.parent, NULL);
  for (int t = 0; t < 2; t++) if (failing[t]) { vp_assert(nseq[t] == before[t], "nothing is rendered without a tile"); nexp[t] = nseq[t]; }
  failing[0] = failing[1] = 0;
  compare(0); compare(1);
  vp_assert(open_requests == 0, "every tile request is ended");
}
void vp_main(void)
{
  memset(&s, 0, sizeof s);
  mypaint_tiled_surface_init(&s, start, end);
  x0 = vp_i("tile", -3, 2);
  x0 = vp_conc(x0);
  mypaint_surface_begin_atomic(&s.parent);
  char np[3] = "p0", na[3] = "a0";
  for (int i = 0; i < K; i++) {
    np[1] = na[1] = '0' + i;
    draw(101 + i, vp_choice(np, 3));
    switch (vp_choice(na, 5)) {
    case 1: finish(0); mypaint_surface_begin_atomic(&s.parent); break;
    case 2: finish(1); mypaint_surface_begin_atomic(&s.parent); break;
    case 3: finish(2); mypaint_surface_begin_atomic(&s.parent); break;
    case 4: {
      float r, g, b, a = -1;
      sampled = 0;
      mypaint_surface_get_color(&s.parent, x0 * TS + 8, 4, 1.5f, &r, &g, &b, &a, 0.5f);
      vp_assert(sampled == 3, "all tiles under the sample are looked at");
      vp_assert(a == 0.5f, "the sampled alpha");
      vp_assert(open_requests == 0, "every tile request is ended");
      break; }
    }
  }
  finish(0);
  draw(200, 1);          /* and the surface still works */
  mypaint_surface_begin_atomic(&s.parent);
  finish(0);
  mypaint_tiled_surface_destroy(&s);
  vp_no_leak("everything queued is released");
}
