// Traversal of the interpolation-based compressor and decompressor with the quantiser replaced by a recorder (P25 decides the real one):
// coding a point replaces it by an arbitrary value and returns a serial number, decoding gets the serial number back. Original values are
// concrete and identify the point; decoded values are symbolic, so equal predictions on both sides mean equal use of decoded values.
#include "huffstub.h"
#include <vector>
#include <iostream>
#include <cassert>
#include "sz3_utils.hpp"
#ifndef VT
#define VT double
#endif
typedef VT X;
static const int VP_MAX = 4096;
static int vp_nq, vp_nr, vp_nn;
static X vp_y[VP_MAX], vp_pred[VP_MAX];
static double vp_eb[VP_MAX];
static int vp_pt[VP_MAX];
template <class T, class T_eb> struct VpQ {
  VpQ(int radius) {}
  int quantize_and_overwrite(T &data, T pred, T_eb eb) {
    vp_assert(data >= 500, "P16: a point is coded a second time");
    vp_assume(data >= 500);
    int p = (int)data - 500;
    vp_assert(p >= 0 && p < 2 * vp_nn && vp_nq < VP_MAX - 1, "P16: a value that is not in the field is coded");
    vp_assume(p >= 0 && p < 2 * vp_nn && vp_nq < VP_MAX - 1);
    T y = VP<T>::fin("y");
    vp_assume((y >= -1) & (y <= 1));
    vp_pt[vp_nq] = p; vp_pred[vp_nq] = pred; vp_eb[vp_nq] = eb; vp_y[vp_nq] = y;
    data = y;
    return ++vp_nq;
  }
  int quantize_and_overwrite(T ori, T pred, T_eb eb, T &dest) { int r = quantize_and_overwrite(ori, pred, eb); dest = ori; return r; }
  T recover(T pred, int index, T_eb eb) {
    int t = index - 1;
    vp_assert(t == vp_nr && t < vp_nq, "P16: points are not recovered in the order they were coded");
    vp_assume(t == vp_nr && t < vp_nq);
    vp_nr++;
    vp_assert(VP<T>::same(pred, vp_pred[t]), "P16: the two sides predict a point from different values");
    vp_assert(vp_eb[t] == 0 || eb == vp_eb[t], "P16: the two sides use different bounds");
    return vp_y[t];
  }
  size_t size_est() { return 0; }
  void save(unsigned char *&c) const { *c++ = 0x77; }
  void load(const unsigned char *&c, size_t &n) { vp_assert(*c == 0x77, "P16: the quantiser state is read where something else was written"); c++; }
};
#define VariableEBLinearQuantizer VpQ
#include "sz_compress_cp_preserve_2d.cpp"
#include "sz_decompress_cp_preserve_2d.cpp"
#undef VariableEBLinearQuantizer
extern "C" void vp_main() {
  int r1 = vp_param("r1", 3), lo = vp_param("lo", 1), hi = vp_param("hi", 3);
  vp_keep();
  for (int r2 = lo; r2 <= hi; r2++) {
    int n = r1 * r2;
    vp_nn = n; vp_nq = vp_nr = vp_ntok = 0;
    X *U = (X *)malloc(n * sizeof(X)), *V = (X *)malloc(n * sizeof(X));
    for (int i = 0; i < n; i++) { U[i] = 500 + i; V[i] = 500 + n + i; }
    size_t csz = 0;
    unsigned char *c = sz3_compress_cp_preserve_2d_online_abs<X>(U, V, r1, r2, csz, false, 0.1);
    vp_assert(vp_nq == 2 * n, "P16: not every point is coded");
    X *P = NULL, *Q = NULL;
    sz3_decompress_cp_preserve_2d_online<X>(c, r1, r2, P, Q);
    vp_assert(vp_nr == 2 * n, "P16: not every point is recovered");
    for (int t = 0; t < 2 * n && t < vp_nq; t++) {
      int p = vp_pt[t];
      vp_assert(VP<X>::same(p < n ? P[p] : Q[p - n], vp_y[t]), "P16: a recovered value is stored at another point");
    }
    vp_reach("shape");
    free(c); free(U); free(V); free(P); free(Q);
  }
}
