// P13: packing flags into bits and back.
#include "vp.h"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
extern "C" void vp_main() {
  int n = vp_param("n", 8), extra = vp_param("extra", 0);
  size_t bytes = (n + 7) / 8;
  unsigned char *f = (unsigned char *)malloc(n), *keep = (unsigned char *)malloc(n);
  for (int i = 0; i < n; i++) { f[i] = vp_u8("f"); vp_assume(f[i] <= 1); keep[i] = f[i]; }
  unsigned char *out = (unsigned char *)malloc(bytes + extra);
  for (int i = 0; i < extra; i++) out[bytes + i] = 0x5a;
  unsigned char *p = out;
  convertIntArray2ByteArray_fast_1b_to_result_sz(f, n, p);
  vp_assert((size_t)(p - out) == bytes, "P13: packer advances by ceil(n/8)");
  for (int i = 0; i < extra; i++) vp_assert(out[bytes + i] == 0x5a, "P13: packer leaves the bytes after the map alone");
  for (int i = 0; i < n; i++) vp_assert(f[i] == keep[i], "P13: packing leaves the flags unchanged");
  const unsigned char *q = out;
  unsigned char *g = convertByteArray2IntArray_fast_1b_sz(n, q, bytes);
  vp_assert((size_t)(q - out) == bytes, "P13: unpacker advances by ceil(n/8)");
  for (int i = 0; i < n; i++) vp_assert(g[i] == keep[i], "P13: flag round trip");
  free(g);
}
