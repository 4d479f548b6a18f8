/* P08: distinct tile indices have distinct slots inside the map, copies keep every slot */
#include "vp.h"
#include "tilemap.h"
#include <stdlib.h>
#ifndef SIZE
#define SIZE 3
#endif
#define LIM 100000
static int nfreed;
static void freed(void *p) { if (p) nfreed++; }
void vp_main(void)
{
  TileMap *m = tile_map_new(SIZE, sizeof(void *), freed);
  int row = vp_choice("row", 2 * SIZE + 1) - SIZE;   /* one slot row per case; the last case is everything outside */
  TileIndex a = {vp_i("ax", -LIM, LIM), vp_i("ay", -LIM, LIM)}, b = {vp_i("bx", -LIM, LIM), vp_i("by", -LIM, LIM)};
  if (row < SIZE) vp_assume(a.y == row); else vp_assume(a.y < -SIZE || a.y >= SIZE);
  int ca = tile_map_contains(m, a), cb = tile_map_contains(m, b);
  vp_assert(!!ca == (a.x >= -SIZE && a.x < SIZE && a.y >= -SIZE && a.y < SIZE), "the map covers -size .. size-1 in both directions");
  if (!(ca && cb)) { tile_map_free(m, 0); return; }
  void **pa = tile_map_get(m, a), **pb = tile_map_get(m, b);
  vp_assert(*pa == NULL, "a new map is empty");
  int same = a.x == b.x && a.y == b.y;
  int da, db;
  *pa = &da;
  vp_assert((*tile_map_get(m, b) == &da) == same, "distinct indices have distinct slots");
  if (!same) *pb = &db;
  TileMap *n = tile_map_new(SIZE * 2, sizeof(void *), freed);
  tile_map_copy_to(m, n);
  vp_assert(tile_map_contains(n, a) && tile_map_contains(n, b), "the larger map contains the smaller");
  vp_assert(*tile_map_get(n, a) == &da, "copy keeps the first item");
  vp_assert(*tile_map_get(n, b) == (same ? (void *)&da : (void *)&db), "copy keeps the second item");
  TileIndex c = {vp_i("cx", -2 * SIZE, 2 * SIZE - 1), vp_i("cy", -2 * SIZE, 2 * SIZE - 1)};
  if (!(c.x == a.x && c.y == a.y) && !(c.x == b.x && c.y == b.y)) vp_assert(*tile_map_get(n, c) == NULL, "copy adds nothing");
  tile_map_free(m, 0);
  vp_assert(nfreed == 0, "freeing the map alone keeps the items");
  tile_map_free(n, 1);
  vp_assert(nfreed == (same ? 1 : 2), "freeing with items frees each item once");
  vp_no_leak("all memory of the maps is released");
}
