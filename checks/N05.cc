// N05: Mersenne Twister streams, derived samples, independence of generators, permutations.
#include "vt.h"
#include "vl_all.h"
#include <random>
struct MT {   // independent reference (Matsumoto & Nishimura, 2002)
  std::vector<uint32_t> s; size_t k = 624;
  void seed(uint32_t v) { s.assign(624, 0); s[0] = v; for (uint32_t i = 1; i < 624; ++i) s[i] = 1812433253u * (s[i - 1] ^ (s[i - 1] >> 30)) + i; k = 624; }
  void seed(const std::vector<uint32_t> &key) {
    seed(19650218u); size_t i = 1, j = 0, n = key.size();
    for (size_t t = std::max<size_t>(624, n); t; --t) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1664525u)) + key[j] + (uint32_t)j; if (++i == 624) { s[0] = s[623]; i = 1; } if (++j == n) j = 0; }
    for (size_t t = 623; t; --t) { s[i] = (s[i] ^ ((s[i - 1] ^ (s[i - 1] >> 30)) * 1566083941u)) - (uint32_t)i; if (++i == 624) { s[0] = s[623]; i = 1; } }
    s[0] = 0x80000000u; k = 624;
  }
  uint32_t next() {
    if (k == 624) { std::vector<uint32_t> t(624); for (size_t i = 0; i < 624; ++i) { uint32_t a = s[i], b = i + 1 < 624 ? s[i + 1] : t[0], m = i + 397 < 624 ? s[i + 397] : t[i - 227]; uint32_t y = (a & 0x80000000u) | (b & 0x7fffffffu); t[i] = m ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); } s = t; k = 0; }
    uint32_t y = s[k++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18);
  }
};
VT_CHECK(histories, 6000, 200000, "at least two generators used and one regeneration of the state crossed") {
  int ng = c.i(1, 3), nops = c.i(1, 60); std::vector<VlRand *> g; std::vector<MT> m(ng); std::vector<long> used(ng);
  struct Free { std::vector<VlRand *> &g; ~Free() { for (auto p : g) free(p); } } fr{g};
  for (int k = 0; k < ng; ++k) { g.push_back((VlRand *)malloc(sizeof(VlRand))); vl_rand_init(g[k]); m[k].seed(5489u); }
  std::string log;
  for (int o = 0; o < nops; ++o) {
    int k = c.i(0, ng - 1), op = c.i(0, 12); VlRand *r = g[k]; MT &q = m[k]; used[k]++;
    log += vt::fmt("%d:%d ", k, op);
    switch (op) {
      case 0: { uint32_t v = (uint32_t)c.draw(c.b() ? 10 : 0); vl_rand_seed(r, v); q.seed(v); break; }
      case 1: { size_t n = c.pick({1, 2, 3, 4, 623, 624, 625, 1000}); vt::Stream s = c.stream(); std::vector<uint32_t> key(n); for (auto &x : key) x = (uint32_t)s.u64(); 
        uint32_t *kk = (uint32_t *)malloc(4 * n); memcpy(kk, key.data(), 4 * n); vl_rand_seed_by_array(r, kk, n); free(kk); q.seed(key); break; }
      case 2: { long n = c.i(1, 1300); for (long i = 0; i < n; ++i) { uint32_t a = vl_rand_uint32(r), b = q.next(); if (a != b) c.fail("uint32 %u, reference %u (history %s)", a, b, log.c_str()); } used[k] += n; break; }
      case 3: { uint64_t a = vl_rand_uint64(r), h = q.next(), l = q.next(); VT_ASSERT(c, a == (h << 32 | l), "uint64"); break; }
      case 4: { int64_t a = vl_rand_int63(r); uint64_t h = q.next(), l = q.next(); VT_ASSERT(c, a == (int64_t)((h << 32 | l) >> 1) && a >= 0, "int63 %lld", (long long)a); break; }
      case 5: { int32_t a = vl_rand_int31(r); uint32_t b = q.next(); VT_ASSERT(c, a == (int32_t)(b >> 1), "int31"); break; }
      case 6: { double a = vl_rand_real1(r); double b = q.next() / 4294967295.0; VT_ASSERT(c, std::fabs(a - b) <= 3e-16 && a >= 0 && a <= 1, "real1 %.17g vs %.17g", a, b); break; }
      case 7: { double a = vl_rand_real2(r); double b = q.next() / 4294967296.0; VT_ASSERT(c, a == b && a < 1, "real2 %.17g vs %.17g", a, b); break; }
      case 8: { double a = vl_rand_real3(r); double b = (q.next() + 0.5) / 4294967296.0; VT_ASSERT(c, a == b && a > 0 && a < 1, "real3 %.17g vs %.17g", a, b); break; }
      case 9: { double a = vl_rand_res53(r); uint64_t x = q.next() >> 5, y = q.next() >> 6; double b = (double)((x << 26) | y) / 9007199254740992.0; VT_ASSERT(c, a == b && a < 1, "res53 %.17g vs %.17g", a, b); break; }
      case 10: { uint64_t range = c.b() ? (uint64_t)c.i(1, 1000) : (uint64_t)c.pick<long long>({0xffffffffLL, 0x100000000LL, 0xfffffffeLL, 0x123456789abLL, 0x7fffffffffffffffLL}); uint64_t a = vl_rand_uindex(r, range), b;
        if (range <= 0xffffffffULL) b = q.next() % range; else { uint64_t h = q.next(), l = q.next(); b = (h << 32 | l) % range; }
        VT_ASSERT(c, a == b && a < range, "uindex(%llu) = %llu, reference %llu", (unsigned long long)range, (unsigned long long)a, (unsigned long long)b); break; }
      case 11: { vl_rand_init(r); q.seed(5489u); break; }
      case 12: { size_t n = c.i(0, 40); vl_index *a = (vl_index *)malloc(sizeof(vl_index) * (n ? n : 1)); std::vector<vl_index> o2(n); for (size_t i = 0; i < n; ++i) a[i] = o2[i] = (vl_index)(i * 7 + 3);
        vl_rand_permute_indexes(r, a, n); std::vector<vl_index> b(a, a + n); free(a); std::sort(b.begin(), b.end()); VT_ASSERT(c, b == o2, "permute_indexes does not return a permutation");
        for (size_t i = n; i > 1; --i) q.next(); break; }
    }
  }
  int act = 0; for (long u : used) act += u > 0; long mx = *std::max_element(used.begin(), used.end()); if (act >= 2 && mx > 624) c.nontrivial();
  c.note("%d generators, ops (generator:op) %s", ng, log.c_str());
  for (int k = 0; k < ng; ++k) for (int i = 0; i < 3; ++i) VT_ASSERT(c, vl_rand_uint32(g[k]) == m[k].next(), "generator %d left the reference stream (history %s)", k, log.c_str());
}
VT_CHECK(standard_library, 300, 10000, "always") {
  uint32_t s = (uint32_t)c.draw(0); std::mt19937 e(s); VlRand r; vl_rand_init(&r); vl_rand_seed(&r, s); c.nontrivial();
  for (int i = 0; i < 3000; ++i) { uint32_t a = vl_rand_uint32(&r), b = (uint32_t)e(); if (a != b) c.fail("seed %u, sample %d: %u, std::mt19937 gives %u", s, i, a, b); }
}
namespace sh {
#define VL_SHUFFLE_type int
#define VL_SHUFFLE_prefix my
extern "C++" {
#include <vl/shuffle-def.h>
}
}
static void uniformity(vt::Ctx &c, int which) {
  int n = c.i(2, 5); VlRand r; vl_rand_init(&r); vl_rand_seed(&r, (uint32_t)c.draw(0)); int f = 1; for (int i = 2; i <= n; ++i) f *= i;
  long N = 200L * f; std::map<std::vector<int>, long> cnt;
  for (long t = 0; t < N; ++t) {
    std::vector<int> p(n); 
    if (which) { vl_index a[5]; for (int i = 0; i < n; ++i) a[i] = i; vl_rand_permute_indexes(&r, a, n); for (int i = 0; i < n; ++i) p[i] = (int)a[i]; }
    else { for (int i = 0; i < n; ++i) p[i] = i; sh::my_shuffle(p.data(), n, &r); }
    cnt[p]++;
  }
  c.nontrivial(); c.note("n=%d which=%d", n, which);
  VT_ASSERT(c, (int)cnt.size() == f, "%zu of %d permutations of %d elements seen in %ld shuffles", cnt.size(), f, n, N);
  double chi = 0; for (auto &k : cnt) { VT_ASSERT(c, std::set<int>(k.first.begin(), k.first.end()).size() == (size_t)n, "not a permutation"); chi += (k.second - 200.0) * (k.second - 200.0) / 200.0; }
  double df = f - 1, lim = df + 9 * std::sqrt(2 * df) + 60;   // false-alarm probability well below 1e-12
  VT_ASSERT(c, chi <= lim, "permutations of %d elements are not equally likely: chi2=%.1f with %g degrees of freedom", n, chi, df);
}
VT_CHECK(uniform_permutations, 400, 6000, "always") { uniformity(c, c.i(0, 1)); }
VT_CHECK(long_shuffles, 3000, 100000, "at least 3 elements") {
  size_t n = c.small(0, 3000); VlRand r; vl_rand_init(&r); vl_rand_seed(&r, (uint32_t)c.draw(0)); std::vector<int> v(n), o; vt::Stream s = c.stream(); for (auto &x : v) x = (int)s.below(50); o = v;
  int *p = (int *)malloc(sizeof(int) * (n ? n : 1)); memcpy(p, v.data(), 4 * n); sh::my_shuffle(p, n, &r); v.assign(p, p + n); free(p); if (n > 2) c.nontrivial(); c.note("n=%zu", n);
  std::sort(v.begin(), v.end()); std::sort(o.begin(), o.end()); VT_ASSERT(c, v == o, "shuffle of %zu elements changed the content", n);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
