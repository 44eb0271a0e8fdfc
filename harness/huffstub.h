// Side-table model of the entropy coder (decided separately by P12): a token stands for the coded sequence and occupies the
// worst-case number of bytes. Used symbolically in place of Huffman_{en,de}code_tree_and_data; natively the real coder runs.
#ifndef HUFFSTUB_H
#define HUFFSTUB_H
#include "vp.h"
#include "huffw.h"
struct VpTok { size_t S, n, len; const int *v; int used; };
static VpTok vp_tok[16];
static int vp_ntok = 0;
extern "C" {
void vp_henc(size_t S, const int *type, size_t n, unsigned char *&pos) {
  int *c = (int *)malloc(n * sizeof(int) + 1);
  for (size_t i = 0; i < n; i++) {
    c[i] = type[i];
    vp_assert(type[i] >= 0 && (size_t)type[i] < S, "P15: symbol handed to the entropy coder is outside its alphabet");
  }
  vp_tok[vp_ntok].S = S; vp_tok[vp_ntok].n = n; vp_tok[vp_ntok].v = c; vp_tok[vp_ntok].len = huff_worst(S, n);
  if (n) { pos[0] = (unsigned char)vp_ntok; pos[vp_tok[vp_ntok].len - 1] = 0x5a; for (int k = 1; k < 8; k++) pos[k] = 0xa5; pos += vp_tok[vp_ntok].len; }
  vp_ntok++;
}
int *vp_hdec(size_t S, size_t n, const unsigned char *&pos) {
  int *r = (int *)malloc(n * sizeof(int) + 1);
  if (n == 0) return r;
  int t = pos[0];
  int ok = t < vp_ntok && pos[1] == 0xa5 && pos[7] == 0xa5;
  vp_assert(ok, "P15: the decoder reads a coded sequence where the encoder wrote something else");
  vp_assume(ok);
  ok = vp_tok[t].S == S && vp_tok[t].n == n;
  vp_assert(ok, "P15: alphabet or length differ between encoder and decoder");
  vp_assume(ok);
  vp_assert(pos[vp_tok[t].len - 1] == 0x5a, "P15: coded sequence truncated");
  for (size_t i = 0; i < n; i++) r[i] = vp_tok[t].v[i];
  pos += vp_tok[t].len;
  return r;
}
void vp_keep() { unsigned char *p = 0; const unsigned char *q = 0; if (vp_param("never", 0)) { vp_henc(0, 0, 0, p); vp_hdec(0, 0, q); } }
}
#endif
