// P14: exponential quantisation of error bounds.
#include "vp.h"
#include "sz_cp_preserve_utils.hpp"
extern "C" void vp_main() {
  int base = vp_param("base", 4), k = vp_param("k", 52);
  double threshold = k == 0 ? (double)std::numeric_limits<float>::epsilon() : 1.0 / (double)(1UL << k);
  double eb0 = vp_finite_f64("eb");
  vp_assume(eb0 >= 0);
  double eb = eb0;
  int id = k == 0 ? eb_exponential_quantize(eb, base, log2((double)base)) : eb_exponential_quantize(eb, base, log2((double)base), threshold);
  vp_assert(eb <= eb0, "P14: quantising a bound must not enlarge it");
  vp_assert((id == 0) == (eb == 0), "P14: index zero exactly for the lossless bound");
  vp_assert(id >= 0, "P14: negative index");
  if (id) {
    vp_assert(eb == pow(base, id) * threshold, "P14: the index decodes to a different bound");
    vp_reach("lossy");
  } else vp_reach("lossless");
}
