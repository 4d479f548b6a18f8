/* P05: sampling the canvas */
#define OWN_BLEND
#include "surf.h"

static uint16_t tiles[2][TS * TS * 4];
static int open_requests;
static void start(MyPaintTiledSurface *s, MyPaintTileRequest *r)
{
  vp_assert(r->readonly, "sampling only reads");
  vp_assert(r->ty == 0 && (r->tx == 0 || r->tx == 1), "no other tile is looked at");
  open_requests++;
  r->buffer = tiles[r->tx];
}
static void end(MyPaintTiledSurface *s, MyPaintTileRequest *r) { open_requests--; }
static int pattern, calls;
int __wrap_rand(void) { return (calls++ & 3) >= pattern ? 0x7fffffff : 0; }
static const float paints[3] = {-1.0f, 0.0f, 0.4f};
static const float xs[3] = {4.0f, 7.25f, 8.6f}, radii[4] = {0.3f, 1.7f, 2.4f, 2.9f};
static const int alphas[3] = {32768, 16384, 3000};
void vp_main(void)
{
  MyPaintTiledSurface s;
  memset(&s, 0, sizeof s);
  mypaint_tiled_surface_init(&s, start, end);
  float paint = paints[vp_choice("paint", 3)], x = xs[vp_choice("x", 3)], y = 4.0f, radius = radii[vp_choice("radius", 4)];
  int what = vp_choice("what", 4); pattern = vp_choice("random", 5); int A = alphas[vp_choice("alpha", 3)];
  int lo = vp_i("lo", 0, A), hi = vp_i("hi", 0, A);
  vp_assume(lo <= hi);
  int ext = radius < 1 ? 1 : (int)(radius + 1);
  for (int t = 0; t < 2; t++)
    for (int j = 0; j < TS; j++)
      for (int i = 0; i < TS; i++) {
        uint16_t *p = tiles[t] + (j * TS + i) * 4;
        int near = t * TS + i >= (int)x - ext - 1 && t * TS + i <= (int)x + ext + 1 && j >= (int)y - ext - 1 && j <= (int)y + ext + 1;
        p[0] = p[1] = p[2] = 0; p[3] = A;
        if (what == 0) { p[1] = lo; p[0] = hi; }                 /* the same everywhere */
        if (what == 1 && near) { p[1] = vp_i("pixel", 0, A); vp_assume(lo <= p[1] && p[1] <= hi); }
        if (what == 2 && near) { p[3] = vp_i("pixel", 0, A); vp_assume(lo <= p[3] && p[3] <= hi); }
        if (what == 3) { p[3] = ((i + j) & 1) ? A : 0; if (p[3]) { p[0] = hi; p[1] = lo; } }   /* transparent pixels do not count */
      }
  float r = -1, g = -1, b = -1, a = -1;
  mypaint_surface_get_color(&s.parent, x, y, radius, &r, &g, &b, &a, paint);
  double full = 32768.0, tol = 0.002 + (A < 10000 ? 0.01 : 0), dlo = lo, dhi = hi;
  vp_assert(r >= 0 && r <= 1, "red in range");
  vp_assert(g >= 0 && g <= 1, "green in range");
  vp_assert(b >= 0 && b <= 1, "blue in range");
  vp_assert(a >= 0 && a <= 1, "alpha in range");
  vp_assert(open_requests == 0, "every tile request is ended");
  if (what == 0 || what == 1) { vp_assert(a - A / full <= 1e-4, "alpha of a uniform area"); vp_assert(a - A / full >= -1e-4, "alpha of a uniform area"); }
  if (what == 0 || what == 3) {
    vp_assert(r - dhi / A <= tol, "colour of a uniform area"); vp_assert(r - dhi / A >= -tol, "colour of a uniform area");
    vp_assert(g - dlo / A <= tol, "colour of a uniform area"); vp_assert(g - dlo / A >= -tol, "colour of a uniform area");
    vp_assert(b == 0, "colour of a uniform area");
  }
  if (what == 1) {
    vp_assert(g - dlo / A >= -tol, "the sample is not darker than everything sampled");
    vp_assert(g - dhi / A <= tol, "the sample is not lighter than everything sampled");
  }
  if (what == 2) {
    vp_assert(a - dlo / full >= -1e-3, "the sample is not more transparent than everything sampled");
    vp_assert(a - dhi / full <= 1e-3, "the sample is not more opaque than everything sampled");
  }
  mypaint_tiled_surface_destroy(&s);
}
