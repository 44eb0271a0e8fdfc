// worst-case size of the entropy coder's output for n symbols of an alphabet of S (header, tree, code words, 8-byte tail writes)
#ifndef HUFFW_H
#define HUFFW_H
#include <cstddef>
static inline size_t huff_worst(size_t S, size_t n) {
  if (n == 0) return 0;
  size_t k = n < S ? n : S, nodes = 2 * k - 1, b = 0;
  while (((size_t)1 << b) < k) b++;
  size_t tree = 1 + nodes * (nodes <= 256 ? 7 : nodes <= 65536 ? 9 : 13);
  return 8 + 4 + tree + 8 + (n * b + 7) / 8 + 8;
}
#endif
