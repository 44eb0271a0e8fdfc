// P25: variable-bound quantiser, saved state.
#include "vp.h"
#include <vector>
#include <cassert>
#include "sz3_utils.hpp"
#ifndef VT
#define VT double
#endif
#ifndef VE
#define VE double
#endif
typedef VT T; typedef VE EB;
extern "C" void vp_main() {
  int n = vp_param("n", 1), R = vp_param("R", 32768), op = vp_param("op", 0);
  VariableEBLinearQuantizer<T, EB> q(R), r(R + 5);
  T x[4], p[4], left[4]; EB e[4]; int id[4]; size_t esc = 0;
  for (int i = 0; i < n; i++) {
    x[i] = VP<T>::fin("x"); p[i] = VP<T>::any("p"); e[i] = VP<EB>::fin("e");
    vp_assume(e[i] >= 0);
    T d = x[i];
    if (op == 0) id[i] = q.quantize_and_overwrite(d, p[i], e[i]);
    else id[i] = q.quantize_and_overwrite(x[i], p[i], e[i], d);
    left[i] = d;
    vp_assert(id[i] >= 0 && id[i] < 2 * R, "P25: index within the capacity");
    if (id[i] == 0) { esc++; vp_assert(VP<T>::same(d, x[i]), "P25: an escaped value is exact"); vp_reach("escape"); }
    else {
      vp_assert(fabs(d - x[i]) <= e[i], "P25: value left in place is within the bound");
      vp_assert(e[i] > 0, "P25: a zero bound is lossless");
      vp_reach("coded");
    }
    int probe = q.quantize(x[i], p[i], e[i]);
    vp_assert(probe == id[i], "P25: probing gives the index that coding gives");
  }
  size_t sz = 1 + sizeof(int) + sizeof(size_t) + esc * sizeof(T);
  int pad = vp_param("pad", 16);
  unsigned char *buf = (unsigned char *)malloc(sz);
  unsigned char *w = buf; q.save(w);
  vp_assert((size_t)(w - buf) == sz, "P25: saved size");
  const unsigned char *c = buf; size_t rem = sz + pad;
  r.load(c, rem);
  vp_assert((size_t)(c - buf) == sz, "P25: load consumes what save wrote");
  vp_assert(r.get_radius() == R, "P25: radius restored");
  for (int i = 0; i < n; i++) {
    T d = r.recover(p[i], id[i], e[i]);
    vp_assert(VP<T>::same(d, left[i]), "P25: recovered value is the one left in place");
  }
}
