/* P17: brush settings and states are separate and read back; names identify them */
#include "vp.h"
#include "mypaint-brush.h"
#include "mypaint-brush-settings.h"
#include "jsonstub.h"
#define NS MYPAINT_BRUSH_SETTINGS_COUNT
#define NI MYPAINT_BRUSH_INPUTS_COUNT
#define NST MYPAINT_BRUSH_STATES_COUNT
char *dgettext(const char *d, const char *s) { return (char *)s; }
#ifdef VALUES
/* base values, curves and states after a few changes */
static void defaults(MyPaintBrush *b)
{
  for (int s = 0; s < NS; s++) {
    vp_assert(mypaint_brush_get_base_value(b, s) == mypaint_brush_setting_info(s)->def, "a default brush has the documented default values");
    for (int i = 0; i < NI; i++)
      vp_assert(mypaint_brush_get_mapping_n(b, s, i) == (s == MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY && i == MYPAINT_BRUSH_INPUT_PRESSURE ? 2 : 0),
                "a default brush has no dynamics but opacity by pressure");
    vp_assert(!!mypaint_brush_is_constant(b, s) == (s != MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY), "constancy");
  }
  for (int i = 0; i < 2; i++) {
    float x = 5, y = 5;
    mypaint_brush_get_mapping_point(b, MYPAINT_BRUSH_SETTING_OPAQUE_MULTIPLY, MYPAINT_BRUSH_INPUT_PRESSURE, i, &x, &y);
    vp_assert(x == i && y == i, "opacity follows the pressure");
  }
}
void vp_main(void)
{
  MyPaintBrush *b = mypaint_brush_new();
  int part = vp_choice("part", 8);
  if (vp_choice("defaults", 2)) { mypaint_brush_from_defaults(b); defaults(b); }
  float base[NS], st[NST];
  int n[NS][NI];
  for (int s = 0; s < NS; s++) { base[s] = mypaint_brush_get_base_value(b, s); for (int i = 0; i < NI; i++) n[s][i] = mypaint_brush_get_mapping_n(b, s, i); }
  for (int s = 0; s < NST; s++) st[s] = mypaint_brush_get_state(b, s);
  int a = vp_conc(vp_i("setting", part * NS / 8, (part + 1) * NS / 8 - 1)), c = (a + 1) % NS;
  int in = (a * 7 + 3) % NI, sa = a % NST;
  float v = vp_f("value", -10, 10), w = vp_f("second value", -10, 10), sv = vp_f("state value", -10, 10), py = vp_f("point", -10, 10);
  mypaint_brush_set_base_value(b, a, v);
  mypaint_brush_set_base_value(b, c, w);
  mypaint_brush_set_base_value(b, a, v);
  mypaint_brush_set_state(b, sa, sv);
  mypaint_brush_set_mapping_n(b, a, in, 2);
  mypaint_brush_set_mapping_point(b, a, in, 0, 0.0f, py);
  mypaint_brush_set_mapping_point(b, a, in, 1, 1.0f, v);
  base[a] = v; base[c] = w; st[sa] = sv; n[a][in] = 2;
  for (int s = 0; s < NS; s++) {
    vp_assert(mypaint_brush_get_base_value(b, s) == base[s], "base values are separate");
    int used = 0;
    for (int i = 0; i < NI; i++) { used += n[s][i] > 0; vp_assert(mypaint_brush_get_mapping_n(b, s, i) == n[s][i], "curves are separate"); }
    vp_assert(mypaint_brush_get_inputs_used_n(b, s) == used && !!mypaint_brush_is_constant(b, s) == !used, "inputs used");
  }
  for (int s = 0; s < NST; s++) vp_assert(mypaint_brush_get_state(b, s) == st[s], "states are separate");
  float x, y;
  mypaint_brush_get_mapping_point(b, a, in, 0, &x, &y);
  vp_assert(x == 0 && y == py, "points read back");
  mypaint_brush_get_mapping_point(b, a, in, 1, &x, &y);
  vp_assert(x == 1 && y == v, "points read back");
  mypaint_brush_from_defaults(b);
  defaults(b);
  for (int s = 0; s < NST; s++) vp_assert(mypaint_brush_get_state(b, s) == st[s], "settings do not change states");
  mypaint_brush_unref(b);
  vp_no_leak("the brush is released");
}
#else
/* names: exactly the listed internal names are known */
#ifndef LEN
#define LEN 40
#endif
static int same(const char *a, const char *b) { int i; for (i = 0; a[i] && a[i] == b[i]; i++); return a[i] == b[i]; }
void vp_main(void)
{
  int what = vp_choice("what", 3);
  if (what == 0) {
    for (int s = 0; s < NS; s++) {
      const MyPaintBrushSettingInfo *f = mypaint_brush_setting_info(s);
      vp_assert(f->cname && f->name && f->tooltip, "every setting is described");
      vp_assert(f->min <= f->def && f->def <= f->max, "the default lies in the range");
      vp_assert(mypaint_brush_setting_from_cname(f->cname) == s, "the internal name leads back to the setting");
      vp_assert(same(mypaint_brush_setting_info_get_name(f), f->name) && same(mypaint_brush_setting_info_get_tooltip(f), f->tooltip), "name and tooltip");
    }
    for (int s = 0; s < NI; s++) {
      const MyPaintBrushInputInfo *f = mypaint_brush_input_info(s);
      vp_assert(f->cname && f->name && f->tooltip, "every input is described");
      vp_assert(f->hard_min <= f->soft_min && f->soft_min <= f->normal && f->normal <= f->soft_max && f->soft_max <= f->hard_max, "the normal value lies in the soft range in the hard range");
      vp_assert(mypaint_brush_input_from_cname(f->cname) == s, "the internal name leads back to the input");
      vp_assert(same(mypaint_brush_input_info_get_name(f), f->name) && same(mypaint_brush_input_info_get_tooltip(f), f->tooltip), "name and tooltip");
    }
    return;
  }
  /* any string that differs from an existing name in one place, or is cut or continued there */
  int count = what == 1 ? NS : NI;
  int half = vp_choice("half", 2);
  int id = vp_conc(vp_i("id", half ? count / 2 : 0, half ? count - 1 : count / 2 - 1));
  const char *cn = what == 1 ? mypaint_brush_setting_info(id)->cname : mypaint_brush_input_info(id)->cname;
  char s[64];
  int l;
  for (l = 0; cn[l]; l++) s[l] = cn[l];
  s[l] = s[l + 1] = 0;
  int p = vp_conc(vp_i("place", 0, LEN));
  vp_assume(p <= l);
  s[p] = (char)vp_u("character", 0, 127);
  int got = what == 1 ? (int)mypaint_brush_setting_from_cname(s) : (int)mypaint_brush_input_from_cname(s);
  if (same(s, cn)) vp_assert(got == id, "the name is found");
  else if (got != -1) {
    vp_assert(got >= 0 && got < count, "an index or -1");
    vp_assert(same(s, what == 1 ? mypaint_brush_setting_info(got)->cname : mypaint_brush_input_info(got)->cname), "only exact names are found");
  }
}
#endif
