/* Native side of the harness interface: replays one concrete input vector. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vp.h"
static unsigned long long in[1 << 16];
static char names[1 << 14][48];
static int n_in, i_in, n_fail;
static FILE *out;
extern void vp_main(void);
static int differs(const char *a, const char *b)   /* names are written with _ for a space */
{
  int i;
  for (i = 0; i < 47 && a[i]; i++) if (a[i] != (b[i] == ' ' ? '_' : b[i])) return 1;
  return i < 47 && b[i] != 0;
}
static unsigned long long nxt(const char *nm)
{
  if (i_in >= n_in) { fprintf(out, "VP-UNDERRUN %s\n", nm); fflush(out); _exit(77); }
  if (i_in < (1 << 14) && names[i_in][0] && differs(names[i_in], nm)) { fprintf(out, "VP-ORDER %s is read where %s was\n", nm, names[i_in]); fflush(out); _exit(76); }
  return in[i_in++];
}
uint32_t vp_u(const char *n, uint32_t lo, uint32_t hi) { uint32_t v = (uint32_t)nxt(n); if (v < lo || v > hi) { fprintf(out, "VP-RANGE %s\n", n); fflush(out); _exit(78);} return v; }
int vp_i(const char *n, int lo, int hi) { int v = (int)nxt(n); if (v < lo || v > hi) { fprintf(out, "VP-RANGE %s\n", n); fflush(out); _exit(78);} return v; }
float vp_f(const char *n, float lo, float hi) { uint32_t b = (uint32_t)nxt(n); float f; memcpy(&f, &b, 4); if (!(f >= lo)) f = lo; if (!(f <= hi)) f = hi; return f; }
double vp_d(const char *n, double lo, double hi) { uint64_t b = nxt(n); double f; memcpy(&f, &b, 8); if (!(f >= lo)) f = lo; if (!(f <= hi)) f = hi; return f; }
float vp_any_f(const char *n) { uint32_t b = (uint32_t)nxt(n); float f; memcpy(&f, &b, 4); return f; }
int vp_choice(const char *n, int k) { (void)k; return (int)nxt(n); }
int vp_conc(int v) { return v; }
void vp_assume(int c) { if (!c) { fprintf(out, "VP-ASSUME-FALSE\n"); fflush(out); _exit(79); } }
void vp_assert(int c, const char *m) { if (!c) { fprintf(out, "VP-ASSERT-FAIL %s\n", m); fflush(out); _exit(42); } }
void vp_reach(const char *m) { fprintf(out, "REACH %s\n", m); }
void vp_obs_u(const char *n, uint64_t v) { fprintf(out, "OBS %s %llu\n", n, (unsigned long long)v); }
void vp_obs_f(const char *n, double v) { fprintf(out, "OBS %s %.17g\n", n, v); }
extern int vp_live_objects(void);
void vp_no_leak(const char *m) { if (vp_live_objects() != 0) { fprintf(out, "VP-ASSERT-FAIL leak: %s\n", m); fflush(out); _exit(42); } }
int vp_heap_objects(void) { return vp_live_objects(); }
void vp_exit(void) { fprintf(out, "VP-DONE\n"); fflush(out); _exit(0); }
/* allocation counting through the linker's --wrap */
static int live; static int counting; static int failn;
void vp_fail_alloc(int n) { failn = n; }
static int fails(void) { return counting && failn && --failn == 0; }
extern void *__real_malloc(size_t); extern void __real_free(void *); extern void *__real_realloc(void *, size_t); extern void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) { if (fails() || (counting && n > (1ul << 31))) return NULL; void *p = __real_malloc(n); if (counting && p) { live++; memset(p, 0xA5, n < (1u << 20) ? n : (1u << 20)); } return p; }
void *__wrap_calloc(size_t a, size_t b) { if (fails()) return NULL; void *p = __real_calloc(a, b); if (counting && p) live++; return p; }
void *__wrap_realloc(void *q, size_t n) { if (fails()) return NULL; void *p = __real_realloc(q, n); if (counting && !q && p) live++; return p; }
void __wrap_free(void *p) { if (counting && p) live--; __real_free(p); }
int vp_live_objects(void) { return live; }
int main(int argc, char **argv)
{
  FILE *f = fopen(argv[1], "r");
  char line[512];
  out = argc > 2 ? fopen(argv[2], "w") : stdout;
  if (!f || !out) return 99;
  while (fgets(line, sizeof line, f)) {
    char *p = line; if (*p == '#' || *p == '\n') continue;
    char *e; in[n_in] = strtoull(p, &e, 16);
    if (n_in < (1 << 14)) sscanf(e, " %47s", names[n_in]);
    n_in++;
  }
  fclose(f);
  counting = 1;
  vp_main();
  counting = 0;
  fprintf(out, "VP-DONE\n"); fflush(out);
  return 0;
}
