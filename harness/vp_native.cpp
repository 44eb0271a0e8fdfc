// Native side of vp.h: replays recorded inputs, or searches around them with a seeded generator.
// usage: prog replay FILE     |   prog search SEED SECONDS FILE|-
#include "vp.h"
#include <cstdio>
#include <map>
#include <string>
#include <vector>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
extern "C" void vp_main(void);
static std::map<std::string, unsigned long> given, rec;
static std::vector<std::string> order;
static std::map<std::string, int> cnt;
static std::map<std::string, long> params;
static bool search = false;
static unsigned long rs = 1;
static double scale = 1, base = 0;
static int style = 0;
static jmp_buf jb;
static unsigned long rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 2685821657736338717UL; }
static double unit() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }
static unsigned long get(const char *n, bool &found) {
  std::string k = std::string(n) + "#" + std::to_string(cnt[n]++);
  order.push_back(k);
  auto it = given.find(k);
  found = it != given.end();
  return found ? it->second : 0;
}
static void put(unsigned long v) { rec[order.back()] = v; }
static std::vector<double> hist;
static double pickh() { return hist[rnd() % hist.size()]; }
static double nudge(double x, bool flt) {
  int k = (int)(rnd() % 7) - 3;
  if (flt) { float f = (float)x; for (; k > 0; k--) f = nextafterf(f, INFINITY); for (; k < 0; k++) f = nextafterf(f, -INFINITY); return f; }
  for (; k > 0; k--) x = nextafter(x, INFINITY);
  for (; k < 0; k++) x = nextafter(x, -INFINITY);
  return x;
}
static double rfloat(bool flt) {
  if (!hist.empty() && rnd() % 3 == 0) {   // related to earlier values: multiples, quotients, near ties
    double a = pickh(), b = pickh(), k = (double)(rnd() % 12) * (rnd() % 2 ? 1 : 0.5) * (rnd() % 2 ? 1 : -1);
    double r;
    switch (rnd() % 5) {
      case 0: r = a; break;
      case 1: r = a + k * b; break;
      case 2: r = k ? (a - b) / k : 0; break;
      case 3: r = k ? fabs(a - b) / fabs(k) : 0; break;
      default: r = a * (rnd() % 2 ? 2 : 0.5); break;
    }
    return nudge(r, flt);
  }
  switch (rnd() % 12) {
    case 0: return 0;
    case 1: return scale;
    case 2: return -scale;
    case 3: return base + scale * 1e-3 * (unit() * 2 - 1);
    case 4: return (double)(int)(rnd() % 9) - 4;
    case 5: return ldexp(unit() * 2 - 1, (int)(rnd() % 60) - 30);
    default: return base + scale * (unit() * 2 - 1);
  }
}
template <typename T, typename U> static T fget(const char *n, bool fin) {
  bool f; unsigned long v = get(n, f); T r; U u = (U)v; memcpy(&r, &u, sizeof(T));
  if (search && !(f && rnd() % 2)) {
    if (f && rnd() % 2) r = (T)(r * (1 + 0.1 * (unit() * 2 - 1)));
    else r = (T)rfloat(sizeof(T) == 4);
    if (!std::isfinite(r)) r = 0;
    hist.push_back((double)r);
  }
  memcpy(&u, &r, sizeof(T)); put(u);
  if (fin && !std::isfinite(r)) vp_assume(0);
  return r;
}
static FILE *out;
static void dump(FILE *o) {
  for (auto &k : order) fprintf(o, "%s %lx\n", k.c_str(), rec[k]);
  fflush(o);
}
extern "C" {
float vp_f32(const char *n) { return fget<float, uint32_t>(n, false); }
double vp_f64(const char *n) { return fget<double, uint64_t>(n, false); }
float vp_finite_f32(const char *n) { return fget<float, uint32_t>(n, true); }
double vp_finite_f64(const char *n) { return fget<double, uint64_t>(n, true); }
static unsigned long iget(const char *n, unsigned long mask, long lo, long hi, bool ranged) {
  bool f; unsigned long v = get(n, f);
  if (search && !(f && rnd() % 2)) v = ranged ? lo + rnd() % (unsigned long)(hi - lo + 1) : (rnd() % 3 ? rnd() : rnd() % 16);
  v &= mask; put(v); return v;
}
int vp_i32(const char *n, int lo, int hi) { int v = (int)iget(n, 0xffffffffu, lo, hi, true); vp_assume(v >= lo && v <= hi); return v; }
unsigned char vp_u8(const char *n) { return iget(n, 0xff, 0, 0, false); }
unsigned vp_u32(const char *n) { return iget(n, 0xffffffffu, 0, 0, false); }
unsigned long vp_u64(const char *n) { return iget(n, ~0UL, 0, 0, false); }
int vp_choose(const char *n, int lo, int hi) { return vp_i32(n, lo, hi); }
int vp_concrete_i32(int v) { return v; }
int vp_param(const char *n, int d) { auto it = params.find(n); return it == params.end() ? d : (int)it->second; }
void vp_assume(int c) { if (!c) { if (search) longjmp(jb, 1); fprintf(out, "VP-ASSUME-FAILED\n"); exit(77); } }
void vp_assert(int c, const char *m) {
  if (!c) { fprintf(out, "VP-ASSERT-FAILED: %s\n", m); dump(out); fflush(out); _exit(42); }
}
void vp_reach(const char *) {}
int vp_known(int c) { return c; }
int vp_symbolic(void) { return 0; }
size_t vp_objsize(const void *) { return 0; }
int vp_same_f32(float a, float b) { return memcmp(&a, &b, 4) == 0 || (a != a && b != b); }
int vp_same_f64(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
double vp_uf_f64(const char *, int n, const double *a) { return n ? a[0] : 0; }
double vp_exp2_arg(double x, int *ok) { *ok = x != 0; return x != 0 ? log2(fabs(x)) : 0; }
}
static void onsig(int s) {
  if (s == SIGALRM) { fprintf(out, "VP-TIMEOUT\n"); dump(out); fflush(out); _exit(43); }
  fprintf(out, "VP-CRASH: signal %d\n", s); dump(out); fflush(out); _exit(41);
}
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void ondeath() { fprintf(out, "VP-CRASH: sanitizer\n"); dump(out); fflush(out); }
static void atx() { if (!search || 1) { } }
int main(int argc, char **argv) {
  out = fdopen(dup(1), "w"); if (!freopen("/dev/null", "w", stdout)) return 3;
  const char *pe = getenv("VP_PARAMS");
  if (pe) { char *s = strdup(pe), *sv = 0; for (char *t = strtok_r(s, ",", &sv); t; t = strtok_r(0, ",", &sv)) { char *e = strchr(t, '='); *e = 0; params[t] = strtol(e + 1, 0, 10); } }
  const char *file = argc > 2 && !strcmp(argv[1], "replay") ? argv[2] : (argc > 4 ? argv[4] : "-");
  if (strcmp(file, "-")) {
    FILE *f = fopen(file, "r"); char k[256]; unsigned long v;
    while (f && fscanf(f, "%255s %lx", k, &v) == 2) given[k] = v;
    if (f) fclose(f);
  }
  signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGBUS, onsig); signal(SIGALRM, onsig);
  if (__asan_set_death_callback) __asan_set_death_callback(ondeath);
  if (!strcmp(argv[1], "replay")) { alarm(20); vp_main(); fprintf(out, "VP-OK\n"); fflush(out); _exit(0); }
  search = true; rs = strtoul(argv[2], 0, 10) * 0x9E3779B97F4A7C15UL + 1;
  double secs = atof(argv[3]); struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a); volatile long it = 0;
  for (;; it = it + 1) {
    clock_gettime(CLOCK_MONOTONIC, &b);
    if ((b.tv_sec - a.tv_sec) + 1e-9 * (b.tv_nsec - a.tv_nsec) > secs) break;
    alarm(20);
    order.clear(); cnt.clear(); rec.clear(); hist.clear();
    scale = ldexp(1, (int)(rnd() % 30) - 15); base = rnd() % 2 ? 0 : scale * (unit() * 8 - 4); style = rnd() % 4;
    if (setjmp(jb) == 0) vp_main();
  }
  fprintf(out, "VP-OK iterations=%ld\n", (long)it); fflush(out); _exit(0);
}
