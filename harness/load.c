/* P15: loading a brush from its description. json-c itself is not the code under test: a
   small stand-in builds the parsed tree and insists on the preconditions of json-c 0.17. */
#include "vp.h"
#include <json.h>
#include <math.h>
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#define MAXE 3
struct json_object { int type, n, live; double d; struct lh_entry e[MAXE]; struct lh_table t; struct json_object *a[66]; };
static struct json_object pool[160], *tree;
static int used, puts;
static struct json_object *node(int type) { struct json_object *o = &pool[used++]; o->type = type; o->live = 1; return o; }
static struct json_object *num(double d) { struct json_object *o = node(json_type_double); o->d = d; return o; }
static void add(struct json_object *o, const char *k, struct json_object *v)
{
  int i = o->n++;
  o->e[i].k = k; o->e[i].v = v;
  if (i) { o->e[i - 1].next = &o->e[i]; o->e[i].prev = &o->e[i - 1]; } else o->t.head = &o->e[0];
  o->t.tail = &o->e[i];
}
struct json_object *json_object_new_object(void) { return node(json_type_object); }
int json_object_put(struct json_object *o) { if (o) { vp_assert(o->live, "freed once"); o->live = 0; puts++; } return 1; }
struct json_object *json_tokener_parse(const char *s) { vp_assert(s != NULL, "text to parse"); return tree; }
int json_object_is_type(const struct json_object *o, enum json_type t) { return o ? o->type == (int)t : t == json_type_null; }
struct lh_table *json_object_get_object(const struct json_object *o) { return o && o->type == json_type_object ? (struct lh_table *)&o->t : NULL; }
json_bool json_object_object_get_ex(const struct json_object *o, const char *k, struct json_object **v)
{
  if (v) *v = NULL;
  if (!o || o->type != json_type_object) return 0;
  for (int i = 0; i < o->n; i++) if (!strcmp(o->e[i].k, k)) { if (v) *v = (struct json_object *)o->e[i].v; return 1; }
  return 0;
}
size_t json_object_array_length(const struct json_object *o) { vp_assert(o && o->type == json_type_array, "json-c aborts: not an array"); return o->n; }
struct json_object *json_object_array_get_idx(const struct json_object *o, size_t i) { vp_assert(o && o->type == json_type_array, "json-c aborts: not an array"); return i < (size_t)o->n ? o->a[i] : NULL; }
double json_object_get_double(const struct json_object *o) { return o && (o->type == json_type_double || o->type == json_type_int || o->type == json_type_string) ? o->d : 0; }
int32_t json_object_get_int(const struct json_object *o) { return o && (o->type == json_type_double || o->type == json_type_int || o->type == json_type_string) ? (int32_t)o->d : 0; }
static struct json_object *point(double x, double y) { struct json_object *p = node(json_type_array); p->n = 2; p->a[0] = num(x); p->a[1] = num(y); return p; }

#define NS MYPAINT_BRUSH_SETTINGS_COUNT
#define NI MYPAINT_BRUSH_INPUTS_COUNT
static MyPaintBrush *b;
static float base[NS];
static int n[NS][NI];
static void snapshot(void)
{
  for (int s = 0; s < NS; s++) { base[s] = mypaint_brush_get_base_value(b, s); for (int i = 0; i < NI; i++) n[s][i] = mypaint_brush_get_mapping_n(b, s, i); }
}
static void same(void)
{
  for (int s = 0; s < NS; s++) {
    vp_assert(mypaint_brush_get_base_value(b, s) == base[s], "base values");
    for (int i = 0; i < NI; i++) vp_assert(mypaint_brush_get_mapping_n(b, s, i) == n[s][i], "curves");
  }
}
static void is_point(int s, int i, int k, float ex, float ey)
{
  float x, y;
  mypaint_brush_get_mapping_point(b, s, i, k, &x, &y);
  vp_assert(x == ex && y == ey, "the points of a curve");
}
/* what a value of the wrong kind may be */
static struct json_object *wrong(int kind)
{
  struct json_object *o;
  switch (kind) {
    case 0: return NULL;
    case 1: o = node(json_type_int); o->d = 4; return o;
    case 2: o = node(json_type_string); o->d = vp_f("text", -9, 9); return o;
    case 3: return node(json_type_array);
    case 4: o = node(json_type_array); o->n = 3; o->a[0] = num(7); o->a[1] = NULL; o->a[2] = node(json_type_object); return o;
    case 5: return node(json_type_object);
    case 6: o = node(json_type_object); add(o, "pressure", num(3)); add(o, "opaque", num(3)); return o;
    default: o = node(json_type_boolean); return o;
  }
}
void vp_main(void)
{
  b = mypaint_brush_new();
  int part = vp_choice("part", 3);
  if (vp_choice("defaults", 2)) mypaint_brush_from_defaults(b);
  static const int ids[4] = {MYPAINT_BRUSH_SETTING_OPAQUE, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, MYPAINT_BRUSH_SETTING_RADIUS_LOGARITHMIC, NS - 1};
  int sa = ids[vp_choice("setting", 4)], sb = MYPAINT_BRUSH_SETTING_HARDNESS, ia = MYPAINT_BRUSH_INPUT_PRESSURE, ib = NI - 1;
  snapshot();
  struct json_object *root = node(json_type_object), *set = node(json_type_object), *ver, *A = node(json_type_object), *B = node(json_type_object), *in = node(json_type_object), *no = node(json_type_object), *P = node(json_type_array);
  const char *na = mypaint_brush_setting_info(sa)->cname, *nb = mypaint_brush_setting_info(sb)->cname, *pa = mypaint_brush_input_info(ia)->cname, *pb = mypaint_brush_input_info(ib)->cname;
  float va = vp_f("value", -100, 100), vb = vp_f("second value", -100, 100), x[3], y[3];
  ver = node(json_type_int); ver->d = 3;
  int order = vp_choice("order", 2), ok;
  for (int i = 0; i < 3; i++) { x[i] = vp_f("x", -100, 100); y[i] = vp_f("y", -100, 100); }
  tree = root;
  add(B, "base_value", num(vb)); add(B, "inputs", no);
  if (part == 0) {              /* a proper description */
    vp_assume(x[0] <= x[1]); vp_assume(x[1] <= x[2]);
    int np = vp_choice("points", 3), c = np == 0 ? 0 : np + 1;
    P->n = c;
    for (int i = 0; i < c; i++) P->a[i] = point(x[i], y[i]);
    struct json_object *Q = node(json_type_array);
    Q->n = 2; Q->a[0] = point(x[1], y[0]); Q->a[1] = point(x[2], y[1]);
    add(in, pa, P); add(in, pb, Q);
    if (order) { add(A, "inputs", in); add(A, "base_value", num(va)); } else { add(A, "base_value", num(va)); add(A, "inputs", in); }
    if (order) { add(set, nb, B); add(set, na, A); } else { add(set, na, A); add(set, nb, B); }
    if (order) { add(root, "settings", set); add(root, "comment", wrong(4)); add(root, "version", ver); } else { add(root, "version", ver); add(root, "settings", set); }
    vp_assert(mypaint_brush_from_string(b, "text"), "a proper description is accepted");
    base[sa] = va; base[sb] = vb; n[sa][ia] = c; n[sa][ib] = 2;
    same();
    for (int i = 0; i < c; i++) is_point(sa, ia, i, x[i], y[i]);
    is_point(sa, ib, 0, x[1], y[0]); is_point(sa, ib, 1, x[2], y[1]);
  } else if (part == 1) {       /* something is missing or of a wrong kind somewhere */
    int where = vp_choice("where", 14), kind = vp_choice("kind", 9);    /* kind 8: missing */
    struct json_object *w = kind < 8 ? wrong(kind) : NULL;
    vp_assume(x[0] <= x[1]);
    P->n = 2; P->a[0] = point(x[0], y[0]); P->a[1] = point(x[1], y[1]);
    if (where == 8) P->a[1] = w;
    if (where == 9) P->a[0]->a[1] = w;
    if (where == 10) { P->n = kind < 8 ? 1 : 65; for (int i = 2; i < P->n; i++) P->a[i] = P->a[1]; }
    if (where == 11) { P->a[1]->a[0] = num(kind & 1 ? NAN : x[0] - 1.0); }
    if (where == 7) { if (kind < 8) add(in, pa, w); else add(in, "presure", P); } else add(in, pa, P);
    if (where == 4) { if (kind < 8) add(A, "base_value", w); } else add(A, "base_value", num(va));
    if (where == 5) { if (kind < 8) add(A, "inputs", w); } else add(A, "inputs", in);
    const char *name = where == 3 ? "opaqe" : where == 6 ? "" : na;
    struct json_object *a = where == 2 && kind < 8 ? w : A;
    if (order) { add(set, nb, B); add(set, name, a); } else { add(set, name, a); add(set, nb, B); }
    if (where == 0) { if (kind < 8) add(root, "version", w); } else add(root, "version", ver);
    if (where == 1) { if (kind < 8) add(root, "settings", w); } else add(root, "settings", set);
    if (where == 13) tree = w;
    if (where == 12) ver->d = (double)vp_i("version", -5, 2) + (kind & 1 ? 9 : 0);
    if (where == 0 && kind == 2) vp_assume(w->d < 3);
    ok = mypaint_brush_from_string(b, "text");
    int refused = where == 0 || where == 1 || where == 12 || where == 13, touched = where == 9 || where == 4 || where == 5 || where == 7 || where == 8 || where == 10 || where == 11 || (where == 2);
    if (refused) { vp_assert(!ok, "not a brush description"); same(); }
    else {
      vp_assert(ok, "the other setting is taken over");
      base[sb] = vb;
      if (touched) {            /* of the broken one no more than its own values may change */
        base[sa] = mypaint_brush_get_base_value(b, sa);
        if (where >= 5) vp_assert(base[sa] == va, "the value before the broken part is taken over");
        int m = mypaint_brush_get_mapping_n(b, sa, ia);
        vp_assert(m == n[sa][ia] || m == P->n || (where == 7 && kind == 3 && m == 0), "the curve is the old or the new one");
        if (where == 8 || where == 10 || where == 11) vp_assert(m == n[sa][ia] || kind == 3 || kind == 4, "a broken curve is not taken over");
        n[sa][ia] = m;
      }
      same();
    }
  } else {                      /* no description at all, twice */
    tree = NULL;
    vp_assert(!mypaint_brush_from_string(b, vp_choice("null", 2) ? NULL : "garbage"), "nothing to load");
    same();
    tree = root;
    add(A, "base_value", num(va)); add(A, "inputs", no); add(set, na, A);
    add(root, "version", ver); add(root, "settings", set);
    vp_assert(mypaint_brush_from_string(b, "text"), "a description can be loaded later");
    base[sa] = va;
    same();
  }
  mypaint_brush_unref(b);
  int live = 0;
  for (int i = 0; i < used; i++) live += pool[i].live && (&pool[i] == tree);
  vp_assert(!live, "the description is freed with the brush");
}
