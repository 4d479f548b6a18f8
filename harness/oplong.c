/* P07: longer histories: two tiles of the initial map and one anywhere (the map may have to grow for it); whole tiles are emptied in between */
#include "vp.h"
#include "operationqueue.h"
#ifndef NOPS
#define NOPS 3
#endif
#ifndef FAR
#define FAR 3
#endif
static OperationQueue *q;
static TileIndex t[3];
static int first[3], next[3], id = 1;    /* per tile the ids queued are first..next-1 of its own numbering */
static void add(int k)
{
  OperationDataDrawDab *op = malloc(sizeof *op);
  memset(op, 0, sizeof *op);
  op->color_r = 100 * (k + 1) + next[k]++;
  operation_queue_add(q, t[k], op);
}
static void drain(int k)
{
  for (; first[k] < next[k]; first[k]++) {
    OperationDataDrawDab *op = operation_queue_pop(q, t[k]);
    vp_assert(op != NULL && op->color_r == 100 * (k + 1) + first[k], "operations come back in the order they were queued");
    free(op);
  }
  vp_assert(operation_queue_pop(q, t[k]) == NULL, "nothing is left");
}
void vp_main(void)
{
  char nm[3] = "o0";
  t[0].x = -1; t[0].y = -1; t[1].x = 0; t[1].y = 0;
  t[2].x = vp_i("x", -FAR, FAR - 1); t[2].y = vp_choice("y", 5) - 3;
  vp_assume(t[2].x != 0 && t[2].x != -1);
  q = operation_queue_new();
  add(0);
  add(1);
  for (int i = 0; i < NOPS; i++) {
    nm[1] = '0' + i;
    int c = vp_choice(nm, 5);
    if (c < 3) add(c);
    else drain(c - 3);
  }
  TileIndex *l;
  int n = operation_queue_get_dirty_tiles(q, &l), cnt[3] = {0, 0, 0}, other = 0;
  for (int i = 0; i < n; i++) {
    int any = 0;
    for (int k = 0; k < 3; k++) { int e = l[i].x == t[k].x && l[i].y == t[k].y; cnt[k] += e; any |= e; }
    other += !any;
  }
  vp_assert(other == 0, "no tile is listed that was never queued");
  for (int k = 0; k < 3; k++) {
    vp_assert(cnt[k] <= 1, "no tile is listed twice");
    vp_assert(cnt[k] == 1 || first[k] == next[k], "a tile with queued operations is listed");
  }
  for (int k = 0; k < 3; k++) drain(k);
  operation_queue_free(q);
  vp_no_leak("the queue and everything queued is released");
}
