// Soundness of the absolute preservation limit (exact real arithmetic): moving one corner by less than the limit
// creates no critical point.
#include "vp.h"
#include "sz_compress_cp_preserve_2d.cpp"
static int inside(double M0, double M1, double M2) {
  double M = M0 + M1 + M2;
  if (M == 0) return 0;
  return (M0 == 0 || M / M0 >= 1) && (M1 == 0 || M / M1 >= 1) && (M2 == 0 || M / M2 >= 1);
}
extern "C" void vp_main() {
  double u0 = vp_finite_f64("u0"), u1 = vp_finite_f64("u1"), u2 = vp_finite_f64("u2");
  double v0 = vp_finite_f64("v0"), v1 = vp_finite_f64("v1"), v2 = vp_finite_f64("v2");
  double e = vp_finite_f64("e"), f = vp_finite_f64("f");
  double eb = derive_cp_eb_for_positions_online_abs<double>(u0, u1, u2, v0, v1, v2);
  double tol = vp_symbolic() ? 1 : 1 - 1e-9;
  vp_assume(fabs(e) < eb * tol && fabs(f) < eb * tol);
  // a positive limit: no critical point before, none after
  double p0 = u2 * v0 - u0 * v2, p1 = u1 * v2 - u2 * v1, p2 = u0 * v1 - u1 * v0;
  vp_assert(!inside(p0, p1, p2), "P08: positive limit for a triangle that contains a critical point");
  double a = u2 + e, b = v2 + f;
  double q0 = a * v0 - u0 * b, q1 = u1 * b - a * v1, q2 = p2;
  vp_assert(!inside(q0, q1, q2), "P08: a critical point appears within the limit");
}
