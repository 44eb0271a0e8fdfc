// P12: the entropy coder.
#include "vp.h"
#include "huffw.h"
#include <cstdio>
#include "sz_huffman.hpp"
#include "sz_compression_utils.hpp"
#include "sz_decompression_utils.hpp"
static void roundtrip(int S, const int *s, int n, const char *tag) {
  size_t W = huff_worst(S, n);
  int *keep = (int *)malloc(n * sizeof(int) + 4);
  for (int i = 0; i < n; i++) keep[i] = s[i];
  unsigned char *buf = (unsigned char *)malloc(W);
  unsigned char *p = buf;
  Huffman_encode_tree_and_data(S, s, n, p);
  size_t used = p - buf;
  vp_assert(used <= W, "P12: more bytes than the worst case");
  unsigned char *exact = (unsigned char *)malloc(used);
  memcpy(exact, buf, used);
  free(buf);
  const unsigned char *q = exact;
  int *d = Huffman_decode_tree_and_data(S, n, q);
  vp_assert((size_t)(q - exact) == used, "P12: decoder consumes exactly what the encoder produced");
  for (int i = 0; i < n; i++) vp_assert(d[i] == keep[i], "P12: symbol round trip");
  for (int i = 0; i < n; i++) vp_assert(s[i] == keep[i], "P12: the coder leaves its input unchanged");
  free(d); free(exact); free(keep);
}
static node build(HuffmanTree *h, int lo, int k, int shape) {
  node a = h->pool + h->n_nodes++;
  if (k == 1) { a->t = 1; a->c = vp_u32("c"); a->left = a->right = 0; return a; }
  a->t = 0; a->c = 0;
  int l = shape == 0 ? k / 2 : shape == 1 ? 1 : k - 1;
  a->left = build(h, lo, l, shape); a->right = build(h, lo + l, k - l, shape);
  return a;
}
static void same(node a, node b) {
  vp_assert(a->t == b->t, "P12: rebuilt tree has the same shape");
  if (a->t) { vp_assert(a->c == b->c, "P12: rebuilt tree has the same leaf symbols"); return; }
  same(a->left, b->left); same(a->right, b->right);
}
extern "C" void vp_main() {
  int op = vp_param("op", 0), S = vp_param("S", 4), n = vp_param("n", 3), lo = vp_param("lo", 0);
  if (op == 0) {           // every sequence over the alphabet
    int *s = (int *)malloc(n * sizeof(int) + 4);
    for (int i = 0; i < n; i++) s[i] = vp_i32("s", lo, S - 1);
    roundtrip(S, s, n, "all");
  } else if (op == 1) {    // Fibonacci frequencies: deep codes, a symbolic window of the sequence
    int depth = vp_param("depth", 8), w = vp_param("w", 2);
    int f0 = 1, f1 = 1, tot = 0; int fr[64];
    for (int i = 0; i <= depth; i++) { fr[i] = f0; tot += f0; int t = f0 + f1; f0 = f1; f1 = t; }
    int *s = (int *)malloc((tot + w) * sizeof(int)); int m = 0;
    // spread the rare symbols through the sequence so that they start at many bit offsets
    for (int left = tot; left > 0;) for (int i = depth; i >= 0; i--) if (fr[i]) { s[m++] = i; fr[i]--; left--; }
    for (int i = 0; i < w; i++) s[m + i] = vp_i32("s", 0, depth);
    roundtrip(S, s, m + w, "deep");
  } else if (op == 2) {    // tree serialisation: every leaf symbol, concrete shapes of every size class
    int k = vp_param("k", 3), shape = vp_param("shape", 0);
    HuffmanTree *h = createHuffmanTree(k + 1);
    h->qq[1] = build(h, 0, k, shape);
    unsigned char *out = 0;
    unsigned size = convert_HuffTree_to_bytes_anyStates(h, 2 * k - 1, &out);
    unsigned char *exact = (unsigned char *)malloc(size); memcpy(exact, out, size); free(out);
    HuffmanTree *g = createHuffmanTree(k + 1);
    node r = reconstruct_HuffTree_from_bytes_anyStates(g, exact, 2 * k - 1);
    same(h->qq[1], r);
  } else {                 // word concatenation: every code length up to 64 bits and every code word
    int l0 = vp_param("l0", 9), w = vp_param("w", 3);
    HuffmanTree *h = createHuffmanTree(4);
    int len[4] = {l0, vp_param("l1", 3), vp_param("l2", 20), vp_param("l3", 1)};
    unsigned long code[4];
    for (int i = 0; i < 4; i++) {
      h->code[i] = (unsigned long *)malloc(16);
      code[i] = vp_u64("w") & (len[i] == 64 ? ~0UL : ~(~0UL >> len[i]));
      h->code[i][0] = code[i]; h->code[i][1] = 0; h->cout[i] = len[i];
    }
    int s[4] = {1, 0, 2, 3}; size_t bits = 0;
    for (int i = 0; i < w; i++) bits += len[s[i]];
    unsigned char *out = (unsigned char *)calloc((bits + 7) / 8 + 8, 1);
    size_t osz = 0;
    encode(h, s, w, out, &osz);
    vp_assert(osz == (bits + 7) / 8, "P12: coded size in bytes");
    size_t at = 0;
    for (int i = 0; i < w; i++)
      for (int b = 0; b < len[s[i]]; b++, at++)
        vp_assert(((out[at >> 3] >> (7 - (at & 7))) & 1) == ((code[s[i]] >> (63 - b)) & 1), "P12: code words are concatenated bit by bit");
  }
}
