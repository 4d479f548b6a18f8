/* Harness interface. The same harness runs under the symbolic executor
 * (vp/se.py), where these are intrinsics, and natively (vp_native.c), where
 * inputs are read from a file (replay of a counterexample or of a witness). */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
uint32_t vp_u(const char *name, uint32_t lo, uint32_t hi);
int      vp_i(const char *name, int lo, int hi);
float    vp_f(const char *name, float lo, float hi);
double   vp_d(const char *name, double lo, double hi);
float    vp_any_f(const char *name);           /* any bit pattern */
int      vp_choice(const char *name, int n);   /* explored case by case */
int      vp_conc(int v);                       /* same value, made concrete by forking */
void     vp_assume(int c);
void     vp_assert(int c, const char *msg);
void     vp_reach(const char *msg);
void     vp_obs_u(const char *name, uint64_t v);
void     vp_obs_f(const char *name, double v);
void     vp_no_leak(const char *msg);
int      vp_heap_objects(void);
void     vp_exit(void);
void     vp_fail_alloc(int n);                   /* the n-th allocation from here on fails (0: none) */
float    vp_nd_f(float lo, float hi);           /* arbitrary value in a stub (symbolic only) */
#endif
