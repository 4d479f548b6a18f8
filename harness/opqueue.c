/* P07: operation queue against a reference log, over every history of NOPS calls on
 * two tiles with symbolic coordinates */
#include "vp.h"
#include "operationqueue.h"
#ifndef NOPS
#define NOPS 4
#endif
#ifndef LO
#define LO -2
#endif
#ifndef HI
#define HI 1
#endif
#ifndef YLO
#define YLO LO
#define YHI HI
#endif
#define MAXA 16
static struct { int x, y, id, popped; } logt[MAXA];
static int nlog;
static OperationQueue *q;
static void add(TileIndex t)
{
  OperationDataDrawDab *op = malloc(sizeof *op);
  memset(op, 0, sizeof *op);
  op->color_r = 100 + nlog;
  logt[nlog].x = t.x; logt[nlog].y = t.y; logt[nlog].id = 100 + nlog; logt[nlog].popped = 0;
  nlog++;
  operation_queue_add(q, t, op);
}
static int expect_first(TileIndex t, int mark)
{
  for (int i = 0; i < nlog; i++)
    if (!logt[i].popped && logt[i].x == t.x && logt[i].y == t.y) { if (mark) logt[i].popped = 1; return logt[i].id; }
  return 0;
}
static int expect_last(TileIndex t)
{
  int r = 0;
  for (int i = 0; i < nlog; i++) if (!logt[i].popped && logt[i].x == t.x && logt[i].y == t.y) r = logt[i].id;
  return r;
}
static int id_of(OperationDataDrawDab *op) { return op ? (int)op->color_r : 0; }
static void pop(TileIndex t)
{
  OperationDataDrawDab *op = operation_queue_pop(q, t);
  int e = expect_first(t, 1);
  vp_assert(id_of(op) == e, "pop returns the oldest operation queued for the tile, and NULL when there is none");
  free(op);
}
static void check(TileIndex t)
{
  vp_assert(id_of(operation_queue_peek_first(q, t)) == expect_first(t, 0), "peek_first sees the oldest queued operation");
  vp_assert(id_of(operation_queue_peek_last(q, t)) == expect_last(t), "peek_last sees the newest queued operation");
}
static void dirty(TileIndex a, TileIndex b)
{
  TileIndex *l;
  int n = operation_queue_get_dirty_tiles(q, &l), na = 0, nb = 0, other = 0;
  for (int i = 0; i < n; i++) {
    int ia = l[i].x == a.x && l[i].y == a.y, ib = l[i].x == b.x && l[i].y == b.y;
    na += ia; nb += ib; other += !ia && !ib;
  }
  vp_assert(na <= 1 && nb <= 1, "no tile is listed twice");
  vp_assert(other == 0, "no tile is listed that was never queued");
  vp_assert(!expect_first(a, 0) || na == 1, "a tile with queued operations is listed");
  vp_assert(!expect_first(b, 0) || nb == 1, "a tile with queued operations is listed");
}
void vp_main(void)
{
  TileIndex a = {vp_i("ax", LO, HI), vp_i("ay", YLO, YHI)}, b = {vp_i("bx", LO, HI), vp_i("by", YLO, YHI)};
#ifdef EDGE   /* just inside and just outside of the initial map of 20 x 20 tiles */
  vp_assume(a.y == -10 && b.x == 10 && b.y == 9);
#endif
  q = operation_queue_new();
#ifdef DISTINCT
  vp_assume(a.x != b.x || a.y != b.y);
#endif
  char nm[3] = "o0";
  add(a);
  for (int i = 0; i < NOPS; i++) {
    nm[1] = '0' + i;
    switch (vp_choice(nm, 4)) {
    case 0: add(a); break;
    case 1: add(b); break;
    case 2: pop(a); break;
    case 3: pop(b); break;
    }
  }
  check(a); check(b);
  dirty(a, b);
#ifdef DRAIN
  for (int i = 0; i < nlog + 1; i++) { pop(a); pop(b); }
  vp_assert(operation_queue_peek_first(q, a) == NULL && operation_queue_peek_first(q, b) == NULL, "a drained queue is empty");
  operation_queue_clear_dirty_tiles(q);
  TileIndex *l;
  vp_assert(operation_queue_get_dirty_tiles(q, &l) == 0, "a cleared list is empty");
#endif
  operation_queue_free(q);
  vp_no_leak("the queue and everything queued is released");
}
