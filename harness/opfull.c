/* P07: every tile of the map is listed as dirty; then NOPS further pops and adds on symbolic tiles */
#include "vp.h"
#include "operationqueue.h"
#ifndef NOPS
#define NOPS 2
#endif
static int count[2][2];
static OperationQueue *q;
static void add(TileIndex t)
{
  OperationDataDrawDab *op = malloc(sizeof *op);
  memset(op, 0, sizeof *op);
  operation_queue_add(q, t, op);
  count[t.x + 1][t.y + 1]++;
}
void vp_main(void)
{
  char nx[3] = "x0", ny[3] = "y0", no[3] = "o0";
  q = operation_queue_new();
  for (int i = 0; i < 4; i++) { TileIndex t = {(i & 1) - 1, (i >> 1) - 1}; add(t); }
  for (int i = 0; i < NOPS; i++) {
    nx[1] = ny[1] = no[1] = '0' + i;
    TileIndex t = {vp_i(nx, -1, 0), vp_i(ny, -1, 0)};
    t.x = vp_conc(t.x); t.y = vp_conc(t.y);
    if (vp_choice(no, 2)) add(t);
    else {
      OperationDataDrawDab *op = operation_queue_pop(q, t);
      vp_assert((op != NULL) == (count[t.x + 1][t.y + 1] > 0), "pop finds exactly what is queued");
      if (op) { count[t.x + 1][t.y + 1]--; free(op); }
    }
  }
  TileIndex *l;
  int n = operation_queue_get_dirty_tiles(q, &l);
  for (int i = 0; i < 4; i++) {
    int found = 0;
    for (int j = 0; j < n; j++) found += l[j].x == (i & 1) - 1 && l[j].y == (i >> 1) - 1;
    vp_assert(found <= 1, "no tile is listed twice");
    vp_assert(found == 1 || count[i & 1][i >> 1] == 0, "a tile with queued operations is listed");
  }
  operation_queue_free(q);
  vp_no_leak("the queue and everything queued is released");
}
