/* P12: creating a surface of any size: the buffer has room for every pixel, a failed allocation is reported */
#include "surf.h"
#undef malloc
void *malloc(size_t);
#include "mypaint-fixed-tiled-surface.h"
static size_t want;
static int failing, big;
void *my_malloc(size_t n)
{
  if (n < 32768) return malloc(n);
  big++;
  if (big == 1) want = n;
  if (big == failing) return NULL;
  return malloc(n);
}
void vp_main(void)
{
  int part = vp_choice("part", 2);
  if (part == 0) {   /* any size; the pixel buffer cannot be allocated */
    failing = 1;
    int w = vp_i("w", 1, 1 << 30), h = vp_i("h", 1, 1 << 30);
    MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
    vp_assert(f == NULL, "failure to allocate the pixels is reported");
    uint64_t tw = ((uint64_t)w + TS - 1) / TS, th = ((uint64_t)h + TS - 1) / TS;
    vp_assert(want == tw * th * (TS * TS * 8), "the buffer has room for exactly the tiles that cover the surface");
  } else {
    failing = vp_choice("fail", 3);
    int w = vp_conc(vp_i("w", 64, 65)), h = 3;
    MyPaintFixedTiledSurface *f = mypaint_fixed_tiled_surface_new(w, h);
    vp_assert((f != NULL) == (failing == 0), "failure to allocate memory is reported");
    if (f) mypaint_surface_unref(mypaint_fixed_tiled_surface_interface(f));
  }
  vp_no_leak("the surface");
}
