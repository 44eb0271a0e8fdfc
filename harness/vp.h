// Interface between harnesses and the solver (vp/execu.py) or the native replay (vp_native.cpp).
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>
#include <cmath>
#include <cstring>
#include <cstdlib>
extern "C" {
float vp_f32(const char *name);            // any bit pattern
double vp_f64(const char *name);
float vp_finite_f32(const char *name);     // any finite value
double vp_finite_f64(const char *name);
int vp_i32(const char *name, int lo, int hi);
unsigned char vp_u8(const char *name);
unsigned vp_u32(const char *name);
unsigned long vp_u64(const char *name);
int vp_choose(const char *name, int lo, int hi);   // forks: concrete on every path
int vp_concrete_i32(int v);
int vp_param(const char *name, int dflt);          // job parameter, concrete
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_reach(const char *msg);
int vp_known(int c);                                // 1 if c is known to hold on this path without asking the solver (native: c)
int vp_symbolic(void);                             // 1 under the solver, 0 natively
size_t vp_objsize(const void *p);                  // allocated size (native: malloc_usable_size is not used; returns 0)
int vp_same_f32(float a, float b);                 // bit-identical (or both NaN)
int vp_same_f64(double a, double b);
double vp_uf_f64(const char *name, int n, const double *args);   // uninterpreted function (never called natively)
double vp_exp2_arg(double x, int *ok);             // a such that x is [-]exp2(a) (native: log2|x|)
}
template <typename T> struct VP;
template <> struct VP<float> {
  static float any(const char *n) { return vp_f32(n); }
  static float fin(const char *n) { return vp_finite_f32(n); }
  static int same(float a, float b) { return vp_same_f32(a, b); }
};
template <> struct VP<double> {
  static double any(const char *n) { return vp_f64(n); }
  static double fin(const char *n) { return vp_finite_f64(n); }
  static int same(double a, double b) { return vp_same_f64(a, b); }
};
#endif
