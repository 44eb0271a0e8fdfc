// Two-phase critical-point preserving 2D compressors (limits first, then the per-element-bound block compressor).
// Symbolically the block compressor is replaced by its contract (P02): a decoded value is any value within its own bound of the
// value handed over, the very same value where the bound is zero, and both sides must pass the same bounds. Natively the real one runs.
#include "huffstub.h"
#include "sz_compress_cp_preserve_2d.cpp"
#include "sz_decompress_cp_preserve_2d.hpp"
#ifndef VT
#define VT double
#endif
typedef VT X;
struct VpBlk { const X *d; const double *e; size_t r1, r2; };
static VpBlk vp_blk[8];
static int vp_nblk = 0;
extern "C" {
unsigned char *vp_benc(const X *data, const double *eb, size_t r1, size_t r2, size_t &csz, int bs, bool bi) {
  size_t n = r1 * r2;
  X *d = (X *)malloc(n * sizeof(X)); double *e = (double *)malloc(n * sizeof(double));
  for (size_t i = 0; i < n; i++) { d[i] = data[i]; e[i] = eb[i]; vp_assert(eb[i] >= 0, "P04: negative or undefined bound handed to the block compressor"); }
  vp_blk[vp_nblk].d = d; vp_blk[vp_nblk].e = e; vp_blk[vp_nblk].r1 = r1; vp_blk[vp_nblk].r2 = r2;
  csz = 32 + 8 * vp_nblk;
  unsigned char *c = (unsigned char *)malloc(csz);
  for (size_t i = 0; i < csz; i++) c[i] = 0x33;
  c[0] = vp_nblk; c[1] = 0xa7; c[csz - 1] = 0x5b;
  vp_nblk++;
  return c;
}
X *vp_bdec(const unsigned char *c, const double *eb, size_t r1, size_t r2) {
  size_t n = r1 * r2;
  X *r = (X *)malloc(n * sizeof(X));
  int t = c[0], ok = t < vp_nblk && c[1] == 0xa7 && c[32 + 8 * t - 1] == 0x5b;
  vp_assert(ok, "P15: the decoder reads a coded component where the encoder wrote something else");
  vp_assume(ok);
  ok = vp_blk[t].r1 == r1 && vp_blk[t].r2 == r2;
  vp_assert(ok, "P15: shapes differ between encoder and decoder");
  vp_assume(ok);
  for (size_t i = 0; i < n; i++) {
    ok = VP<double>::same(eb[i], vp_blk[t].e[i]) | (!(eb[i] > 0) & !(vp_blk[t].e[i] > 0));
    vp_assert(ok, "P14: encoder and decoder use different bounds");
    X x = vp_blk[t].d[i];
    r[i] = x;
    if (eb[i] > 0) { X y = VP<X>::fin("y"); vp_assume(fabs(y - x) <= eb[i]); r[i] = y; }
  }
  return r;
}
void vp_keep2() { size_t z; if (vp_param("never", 0)) { vp_benc(0, 0, 0, 0, z, 0, 0); vp_bdec(0, 0, 0, 0); } }
}
enum { C_BOUND = 1, C_LIMIT = 2, C_INPUT = 4 };
static double slack(double x) { return vp_symbolic() ? x : x * (1 + 1e-9); }
#ifdef LOG
#define ISLOG 1
#define COMP sz_compress_cp_preserve_2d_offline_log
#define DECOMP sz_decompress_cp_preserve_2d_offline_log
static double coded(X x) { int ok; double a = vp_exp2_arg(x, &ok); vp_assert(ok, "P05: a value that was coded in the logarithmic domain is not a power of two"); return a; }
static X log_of(X x) { return (x > 0) ? log2f(x) : log2f(-x); }
#else
#define ISLOG 0
#define COMP sz_compress_cp_preserve_2d_offline
#define DECOMP sz_decompress_cp_preserve_2d_offline
#endif
extern "C" void vp_main() {
  int r1 = vp_param("r1", 2), r2 = vp_param("r2", 2), chk = vp_param("chk", 7), n = r1 * r2;
  vp_keep(); vp_keep2();
  X *F[2], *F0[2];
  for (int c = 0; c < 2; c++) {
    F[c] = (X *)malloc(n * sizeof(X)); F0[c] = (X *)malloc(n * sizeof(X));
    for (int i = 0; i < n; i++) {
      F0[c][i] = F[c][i] = VP<X>::fin(c ? "v" : "u");
#if ISLOG
      X lo = 3.1554436208840472e-30, hi = std::numeric_limits<float>::max();
      vp_assume((F0[c][i] == 0) | ((fabs(F0[c][i]) >= lo) & (fabs(F0[c][i]) <= hi)));
#endif
    }
  }
  double eb = vp_finite_f64("eb");
  vp_assume(eb > 0);
#if ISLOG
  vp_assume(eb <= 0.5);
#else
  vp_assume(eb < 1);
#endif
  size_t csz = 0;
  unsigned char *c = COMP<X>(F[0], F[1], r1, r2, csz, false, eb);
  if (chk & C_INPUT) for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) vp_assert(VP<X>::same(F[k][i], F0[k][i]), "P20: the caller's field was modified");
  if (chk == C_INPUT) { vp_reach("input"); free(c); return; }
  unsigned char *s = (unsigned char *)malloc(csz);
  memcpy(s, c, csz);
  free(c);
  X *D[2] = {NULL, NULL};
  DECOMP<X>(s, r1, r2, D[0], D[1]);
  for (int k = 0; k < 2; k++) for (int p = 0; p < n; p++) {
    X x = F0[k][p], y = D[k][p];
    int same = VP<X>::same(x, y);
#if ISLOG
    if (chk & C_BOUND) vp_assert((y == 0) == (x == 0), "P05: zeros are not kept");
    if (vp_known(x == 0) || vp_known(y == 0)) continue;
    double tol = vp_symbolic() ? 0 : 1e-5;
    X e = fabs((X)coded(y) - log_of(x));
    if (chk & C_BOUND) {
      vp_assert((x == 0) | ((double)e - tol <= log2(1 + eb)), "P05: logarithmic error bound exceeded");
      vp_assert((x == 0) | ((y > 0) == (x > 0)), "P05: sign changed");
    }
#else
    X e = fabs(y - x);
    if (chk & C_BOUND) vp_assert(same | (e <= eb * fabs(x)), "P04: relative error bound exceeded");
#endif
    vp_reach("value");
    if (!(chk & C_LIMIT)) continue;
    int i = p / r2, j = p % r2;
    for (int ci = i - 1; ci <= i; ci++) for (int cj = j - 1; cj <= j; cj++) for (int t = 0; t < 2; t++) {
      if (ci < 0 || cj < 0 || ci + 1 >= r1 || cj + 1 >= r2) continue;
      int q[3] = {ci * r2 + cj, t ? ci * r2 + cj + 1 : (ci + 1) * r2 + cj, (ci + 1) * r2 + cj + 1};
      if (q[0] != p && q[1] != p && q[2] != p) continue;
      X *u = F0[0], *v = F0[1];
      X x1 = t ? 0 : 1;  // position of the second corner: (row, column)
      double lim = slack(max_eb_to_keep_position_and_type<X>(u[q[0]], u[q[1]], u[q[2]], v[q[0]], v[q[1]], v[q[2]], 0, 1 - x1, 1, 0, x1, 1));
#if ISLOG
      vp_assert((x == 0) | ((double)e - tol <= log2(1 + lim)), "P07: a vertex moved by more than the limit derived for a surrounding triangle");
#else
      vp_assert(same | (e <= lim * fabs(x)), "P07: a vertex moved by more than the limit derived for a surrounding triangle");
#endif
      vp_reach("limit");
    }
  }
  free(s); free(D[0]); free(D[1]);
}
