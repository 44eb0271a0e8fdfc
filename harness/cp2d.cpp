// Critical-point preserving 2D compressors that derive per-vertex limits while coding.
#include "huffstub.h"
#define ONLINE 0
#define ABS 1
#define LOG 2
#define RELAX 3
#define SZ3 4
#define BILIN 5
#ifndef VAR
#define VAR ABS
#endif
#if VAR == BILIN
#include "sz_compress_cp_preserve_2d_bilinear.cpp"
#else
#include "sz_compress_cp_preserve_2d.cpp"
#endif
#include "sz_decompress_cp_preserve_2d.hpp"
#ifndef VT
#define VT double
#endif
typedef VT X;
#if VAR == ONLINE
#define COMP sz_compress_cp_preserve_2d_online
#define DECOMP sz_decompress_cp_preserve_2d_online
#elif VAR == ABS
#define COMP sz_compress_cp_preserve_2d_online_abs
#define DECOMP sz_decompress_cp_preserve_2d_online
#elif VAR == LOG
#define COMP sz_compress_cp_preserve_2d_online_log
#define DECOMP sz_decompress_cp_preserve_2d_online_log
#elif VAR == BILIN
#define COMP sz_compress_cp_preserve_2d_bilinear_online_log
#define DECOMP sz_decompress_cp_preserve_2d_online_log
#elif VAR == RELAX
#define COMP sz_compress_cp_preserve_2d_online_abs_relax_FN
#define DECOMP sz_decompress_cp_preserve_2d_online
#else
#define COMP sz3_compress_cp_preserve_2d_online_abs
#define DECOMP sz3_decompress_cp_preserve_2d_online
#endif
#define ISLOG (VAR == LOG || VAR == BILIN)
// triangles (vertex, two neighbours) and cells (vertex and three neighbours) around a vertex, as column/row positions in the unit cell; the vertex is last
static const int TX[6][3] = {{1,0,1},{0,0,1},{0,1,1},{0,1,0},{1,1,0},{1,0,0}};
static const int TY[6][3] = {{0,0,1},{0,1,1},{0,1,0},{1,1,0},{1,0,0},{1,0,1}};
static const int QX[4][4] = {{1,0,0,1},{0,0,1,1},{0,1,1,0},{1,1,0,0}};
static const int QY[4][4] = {{0,0,1,1},{0,1,1,0},{1,1,0,0},{1,0,0,1}};
enum { C_BOUND = 1, C_LIMIT = 2, C_INPUT = 4, C_VERIFY = 8 };
static double slack(double x) { return vp_symbolic() ? x : x * (1 + 1e-9); }
static const double LTOL = 1e-5;   // native replay only: the coded logarithm is recomputed
extern "C" int vp_cellroots(double, double, double, double, double, double, double, double);
extern "C" int vp_sameroots(double, double, double, double, double, double, double, double, double, double, double, double, double, double, double, double);
// coding order: row by row, or level by level for the interpolation-based compressor
static int order(int *o, int r1, int r2) {
  int n = 0;
#if VAR == SZ3
  o[n++] = 0;
  int m = r1 > r2 ? r1 : r2, L = 0;
  while ((1 << L) < m) L++;
  for (int l = L; l > 0; l--) {
    int s = 1 << (l - 1);
    for (int j = 0; j < r2; j += 2 * s) for (int i = s; i < r1; i += 2 * s) o[n++] = i * r2 + j;
    for (int i = 0; i < r1; i += s) for (int j = s; j < r2; j += 2 * s) o[n++] = i * r2 + j;
  }
#else
  for (int i = 0; i < r1 * r2; i++) o[n++] = i;
#endif
  return n;
}
#if ISLOG
static double coded(X x) { int ok; double a = vp_exp2_arg(x, &ok); vp_assert(ok, "P05: a value that was coded in the logarithmic domain is not a power of two"); return a; }
static X log_of(X x) { return (x > 0) ? log2f(x) : log2f(-x); }
#endif

extern "C" void vp_main() {
  int r1 = vp_param("r1", 2), r2 = vp_param("r2", 2), chk = vp_param("chk", 15), n = r1 * r2;
  vp_keep();
  X *U = (X *)malloc(n * sizeof(X)), *V = (X *)malloc(n * sizeof(X)), *U0 = (X *)malloc(n * sizeof(X)), *V0 = (X *)malloc(n * sizeof(X));
  for (int i = 0; i < n; i++) {
    U0[i] = U[i] = VP<X>::fin("u"); V0[i] = V[i] = VP<X>::fin("v");
#if ISLOG
    X lo = 3.1554436208840472e-30, hi = std::numeric_limits<float>::max();
    vp_assume((U0[i] == 0) | ((fabs(U0[i]) >= lo) & (fabs(U0[i]) <= hi)));
    vp_assume((V0[i] == 0) | ((fabs(V0[i]) >= lo) & (fabs(V0[i]) <= hi)));
#endif
  }
  double eb = vp_finite_f64("eb");
  vp_assume(eb > 0);
#if ISLOG
  vp_assume(eb <= 0.5);
#elif VAR == ONLINE
  vp_assume(eb < 1);
#else
  vp_assume(eb <= (double)std::numeric_limits<X>::max());
#endif
  size_t csz = 0;
  unsigned char *c = COMP<X>(U, V, r1, r2, csz, false, eb);
  if (chk & C_INPUT) for (int i = 0; i < n; i++) vp_assert(VP<X>::same(U[i], U0[i]) && VP<X>::same(V[i], V0[i]), "P20: the caller's field was modified");
  if (chk == C_INPUT) { vp_reach("input"); free(c); return; }
  unsigned char *s = (unsigned char *)malloc(csz);
  memcpy(s, c, csz);
  free(c);
  X *P = NULL, *Q = NULL;
  DECOMP<X>(s, r1, r2, P, Q);
  if (chk & (C_BOUND | C_LIMIT | C_VERIFY)) {
#if VAR == ONLINE || VAR == LOG
    X inv[6][4];
    for (int k = 0; k < 6; k++) get_adjugate_matrix_for_position<X>(TX[k][0], TX[k][1], TX[k][2], TY[k][0], TY[k][1], TY[k][2], inv[k]);
#endif
    // current values of the vertices seen by the limit: decoder output where already coded, original elsewhere
    X *A = (X *)malloc(n * sizeof(X)), *B = (X *)malloc(n * sizeof(X));
    for (int i = 0; i < n; i++) A[i] = U0[i], B[i] = V0[i];
    int *ord = (int *)malloc(4 * n * sizeof(int) + 64), no = order(ord, r1, r2);
    vp_assert(no == n, "harness: traversal");
    for (int z = 0; z < n; z++) {
      int p = ord[z], i = p / r2, j = p % r2;
      int su = VP<X>::same(P[p], U0[p]), sv = VP<X>::same(Q[p], V0[p]);
      int same = su & sv, ks = vp_known(same);
#if ISLOG
      int dou = !vp_known(su) && !vp_known(U0[p] == 0), dov = !vp_known(sv) && !vp_known(V0[p] == 0);
      double tol = vp_symbolic() ? 0 : LTOL, eu = 0, ev = 0;
      if (dou) { eu = fabs(coded(P[p]) - (double)log_of(U0[p])) - tol; if (tol == 0) eu = fabs((X)coded(P[p]) - log_of(U0[p])); }
      if (dov) { ev = fabs(coded(Q[p]) - (double)log_of(V0[p])) - tol; if (tol == 0) ev = fabs((X)coded(Q[p]) - log_of(V0[p])); }
#else
      X eu = fabs(P[p] - U0[p]), ev = fabs(Q[p] - V0[p]);
#endif
      if (chk & C_BOUND) {
#if VAR == ONLINE
        vp_assert(same | ((eu <= eb * fabs(U0[p])) & (ev <= eb * fabs(V0[p]))), "P04: relative error bound exceeded");
#elif ISLOG
        double m = log2(1 + eb);
        if (dou) {
          vp_assert(su | (eu <= m), "P05: logarithmic error bound exceeded");
          vp_assert(su | ((P[p] > 0) == (U0[p] > 0)), "P05: sign changed");
        }
        if (dov) {
          vp_assert(sv | (ev <= m), "P05: logarithmic error bound exceeded");
          vp_assert(sv | ((Q[p] > 0) == (V0[p] > 0)), "P05: sign changed");
        }
        vp_assert(((P[p] == 0) == (U0[p] == 0)) & ((Q[p] == 0) == (V0[p] == 0)), "P05: zeros are not kept");
#elif VAR == ABS || VAR == RELAX || VAR == SZ3
        vp_assert(same | ((eu <= eb) & (ev <= eb)), "P03: absolute error bound exceeded");
#endif
      }
#if VAR != BILIN && VAR != RELAX
      if ((chk & C_LIMIT) && !ks) for (int k = 0; k < 6; k++) {
        int q[2], in = 1;
        for (int m = 0; m < 2; m++) {
          int y = i + TY[k][m] - TY[k][2], x = j + TX[k][m] - TX[k][2];
          if (y < 0 || y >= r1 || x < 0 || x >= r2) in = 0;
          q[m] = y * r2 + x;
        }
        if (!in) continue;
#if VAR == ONLINE
        double lim = slack(derive_cp_eb_for_positions_online<X>(A[q[0]], A[q[1]], A[p], B[q[0]], B[q[1]], B[p], inv[k]));
        vp_assert(same | ((eu <= lim * fabs(U0[p])) & (ev <= lim * fabs(V0[p]))), "P07: a vertex moved by more than the limit derived for a surrounding triangle");
#elif VAR == LOG
        double lim = log2(1 + slack(derive_cp_eb_for_positions_online<X>(A[q[0]], A[q[1]], A[p], B[q[0]], B[q[1]], B[p], inv[k])));
        if (dou) vp_assert(same | (eu <= lim), "P07: a vertex moved by more than the limit derived for a surrounding triangle");
        if (dov) vp_assert(same | (ev <= lim), "P07: a vertex moved by more than the limit derived for a surrounding triangle");
#elif VAR == ABS
        double lim = slack(derive_cp_eb_for_positions_online_abs<X>(A[q[0]], A[q[1]], A[p], B[q[0]], B[q[1]], B[p]));
        vp_assert(same | ((eu < lim) & (ev < lim)), "P07: a vertex moved by more than the limit derived for a surrounding triangle");
#else
        double lim = slack(derive_cp_eb_for_positions_online_abs<X>(A[q[0]], A[q[1]], A[p], B[q[0]], B[q[1]], B[p]));
        vp_assert(same | ((eu <= lim) & (ev <= lim)), "P07: a vertex moved by more than the limit derived for a surrounding triangle");
#endif
        vp_reach("limit");
      }
#endif
#if VAR == RELAX
      if ((chk & C_VERIFY) && !ks) for (int k = 0; k < 6; k++) {
        int q[2], in = 1;
        for (int m = 0; m < 2; m++) {
          int y = i + TY[k][m] - TY[k][2], x = j + TX[k][m] - TX[k][2];
          if (y < 0 || y >= r1 || x < 0 || x >= r2) in = 0;
          q[m] = y * r2 + x;
        }
        if (!in) continue;
        int t[3] = {q[0], q[1], p};
        for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) if (t[b] > t[b + 1]) { int h = t[b]; t[b] = t[b + 1]; t[b + 1] = h; }
        X v[3][2];
        for (int a = 0; a < 3; a++) v[a][0] = U0[t[a]], v[a][1] = V0[t[a]];
        vp_assert(same | (check_cp(v) != 1), "P24: a corner of a triangle that contains a critical point was changed");
        X w[3][2] = {{A[q[0]], B[q[0]]}, {A[q[1]], B[q[1]]}, {P[p], Q[p]}};
        vp_assert(same | (check_cp(w) != 1), "P24: a coded vertex creates a critical point in a surrounding triangle");
        vp_reach("verified");
      }
#endif
#if VAR == BILIN
      if ((chk & C_VERIFY) && !ks) for (int k = 0; k < 4; k++) {
        // corners of the cell in counter-clockwise order starting at the lower left one
        int oy = i - QY[k][3], ox = j - QX[k][3];
        if (oy < 0 || ox < 0 || oy + 1 >= r1 || ox + 1 >= r2) continue;
        int q[4] = {oy * r2 + ox, oy * r2 + ox + 1, (oy + 1) * r2 + ox + 1, (oy + 1) * r2 + ox};
        double a[8], b[8];
        for (int m = 0; m < 4; m++) a[m] = b[m] = A[q[m]], a[4 + m] = b[4 + m] = B[q[m]];
        for (int m = 0; m < 4; m++) if (q[m] == p) b[m] = P[p], b[4 + m] = Q[p];
        double J[2][2][2], J_[2][2][2];
        int n0 = bilinear_extract_critical_point(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], J);
        int n1 = bilinear_extract_critical_point(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], J_);
        vp_assert(same | (n0 == n1), "P29: coding a vertex changes the number of critical points of a cell");
        vp_assert(same | (n0 != n1) | bilinear_verify_critical_point(n0, J, J_), "P29: coding a vertex changes the type of a critical point of a cell");
        vp_reach("verified");
      }
#endif
      A[p] = P[p]; B[p] = Q[p];
      if (ks) vp_reach("same"); else vp_reach("moved");
    }
  }
  free(s); free(P); free(Q);
}
