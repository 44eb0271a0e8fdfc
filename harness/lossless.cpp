// P21: the lossless wrapper around the byte compressor.  malloc and the back end are recorded.
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include "zstd.h"
#include "vp.h"
static size_t asked = 0; static int nalloc = 0; static void *given = 0;
static void *rec_malloc(size_t n) {
  asked = n; nalloc++;
  given = malloc(n == 65536 ? 65536 : 64);
  return given;
}
static struct { const void *src, *dst; size_t cap, len; int level, calls; } zc, zd;
static size_t ret;
extern "C" size_t ZSTD_compress(void *dst, size_t cap, const void *src, size_t n, int level) {
  zc.dst = dst; zc.cap = cap; zc.src = src; zc.len = n; zc.level = level; zc.calls++;
  return ret;
}
extern "C" size_t ZSTD_decompress(void *dst, size_t cap, const void *src, size_t n) {
  zd.dst = dst; zd.cap = cap; zd.src = src; zd.len = n; zd.calls++;
  return ret;
}
#define malloc rec_malloc
#include "sz_lossless.cpp"
#undef malloc
extern "C" void vp_main() {
  int lo = vp_param("lo", 0), hi = vp_param("hi", 7), op = vp_param("op", 0);
  unsigned long n = vp_u64("len");
  unsigned char src[8]; unsigned char *out = 0;
  ret = vp_u64("ret");
  int lev = vp_i32("level", 1, 22);
  unsigned long a = lo < 0 ? 1 : (lo == 0 ? 100 : 1UL << lo), b = lo < 0 ? 100 : 1UL << hi;
  vp_assume(n >= a && n < b);
  if (op == 0) {
    unsigned long r = sz_lossless_compress(ZSTD_COMPRESSOR, lev, src, n, &out);
    vp_assert(zc.calls == 1, "P21: the back end is called once");
    vp_assert(zc.src == src && zc.len == n, "P21: the back end gets the caller's data and length");
    vp_assert(zc.level == lev, "P21: the level is passed through");
    vp_assert(nalloc == 1 && zc.dst == given && out == given, "P21: the output buffer is the one handed to the back end and the caller");
    vp_assert(zc.cap <= asked, "P21: the capacity handed to the back end exceeds the allocation");
    vp_assert(zc.cap >= n + 14 + 3 * ((n + 131071) >> 17), "P21: the output buffer cannot hold an incompressible input");
    vp_assert(r == ret, "P21: the size is the one the back end reported");
  } else if (op == 1) {
    unsigned long t = vp_u64("target");
    vp_assume(t < 1UL << 62);
    unsigned long r = sz_lossless_decompress(ZSTD_COMPRESSOR, src, n, &out, t);
    vp_assert(zd.calls == 1 && zd.src == src && zd.len == n, "P21: decompression passes the stream through");
    vp_assert(nalloc == 1 && zd.dst == given && out == given, "P21: decompression buffer");
    vp_assert(zd.cap <= asked && zd.cap >= t, "P21: decompression capacity is the caller's size and within the allocation");
    vp_assert(r == t || r == ret, "P21: decompression reports the size");
  } else {
    unsigned long r = sz_lossless_decompress65536bytes(ZSTD_COMPRESSOR, src, n, &out);
    vp_assert(zd.calls == 1 && zd.src == src && zd.len == n, "P21: decompression passes the stream through");
    vp_assert(zd.dst == given && out == given && zd.cap == 65536 && asked >= zd.cap && r == 65536, "P21: fixed-size decompression");
  }
}
