// C06: Fisher vectors against the closed form in long double, for every flag combination.
// VT-LDFLAGS: -Wl,--wrap=vl_cpu_has_avx
#include "gm.h"
template <class T> static int enc(T *e, const GM<T> &g, const std::vector<T> &X, size_t n, int fl) {
  return (int)vl_fisher_encode(e, GM<T>::type(), g.mu.data(), g.D, g.K, g.cov.data(), g.pi.data(), X.data(), n, fl); }
template <class T> struct Ref { std::vector<ld> e, t; long lo = 0, hi = 0; bool clear = true; };

template <class T> static Ref<T> reference(const GM<T> &g, int fl) {
  Ref<T> r; size_t K = g.K, D = g.D, n = g.n; const ld E = GM<T>::EPS; r.e.assign(2 * D * K, 0); r.t.assign(2 * D * K, 0);
  auto p = g.posteriors(g.pi, g.mu, g.cov);
  if (fl & VL_FISHER_FLAG_FAST) for (size_t i = 0; i < n; ++i) { ld *q = &p.q[i * K], *t = &p.tol[i * K]; size_t b = 0; for (size_t k = 1; k < K; ++k) if (q[k] > q[b]) b = k;
      for (size_t k = 0; k < K; ++k) if (k != b && q[k] + t[k] >= q[b] - t[b]) r.clear = false;
      for (size_t k = 0; k < K; ++k) { q[k] = k == b; t[k] = 0; } }
  for (size_t k = 0; k < K; ++k) { if (g.pi[k] < (T)1e-6) continue; ld pu = 1 / (n * sqrtl((ld)g.pi[k])), pv = 1 / (n * sqrtl(2 * (ld)g.pi[k]));
    for (size_t i = 0; i < n; ++i) { ld q = p.q[i * K + k], t = p.tol[i * K + k]; if (q - t < 1e-6L && q + t > 1e-6L - 1e-12L) { ++r.hi; t += 1.01e-6L; } else if (q < 1e-6L) { t += q; } else { ++r.lo; ++r.hi; }
      for (size_t d = 0; d < D; ++d) { ld s = sqrtl((ld)g.cov[k * D + d]), x = g.X[i * D + d], m = g.mu[k * D + d], z = (x - m) / s, dz = E * (fabsl(x) + fabsl(m)) / s + 4 * E * fabsl(z);
        size_t a = k * D + d, b = a + K * D; r.e[a] += pu * q * z; r.t[a] += pu * (t * fabsl(z) + q * dz + (n + 6) * E * q * fabsl(z)); r.e[b] += pv * q * (z * z - 1); r.t[b] += pv * (t * (z * z + 1) + 2 * q * fabsl(z) * dz + (n + 6) * E * q * (z * z + 1)); } } }
  if (fl & VL_FISHER_FLAG_SQUARE_ROOT) for (size_t j = 0; j < r.e.size(); ++j) { ld a = fabsl(r.e[j]), t = r.t[j]; ld s = sqrtl(a); r.t[j] = t == 0 && a == 0 ? 0 : std::max(sqrtl(a + t) - s, a > t ? s - sqrtl(a - t) : s + sqrtl(t)) + 2 * E * s; r.e[j] = r.e[j] < 0 ? -s : s; }
  if (fl & VL_FISHER_FLAG_NORMALIZED) { ld N = 0, TT = 0; for (size_t j = 0; j < r.e.size(); ++j) { N += r.e[j] * r.e[j]; TT += r.t[j] * r.t[j]; } N = sqrtl(N); TT = sqrtl(TT) + (r.e.size() + 4) * E * N;
    if (N == 0 && TT == 0) return r; if (TT > 0.2L * N || N < 1e-10L) { r.clear = false; return r; }
    for (size_t j = 0; j < r.e.size(); ++j) { ld e = r.e[j] / N; r.t[j] = 1.3L * (r.t[j] + fabsl(e) * TT) / N + 4 * E * fabsl(e); r.e[j] = e; } }
  return r; }

template <class T> static void fisher(vt::Ctx &c) {
  GM<T> g(c); int fl = (int)c.i(0, 7); size_t N = 2 * g.D * g.K; T *e = (T *)malloc(sizeof(T) * N); for (size_t j = 0; j < N; ++j) e[j] = (T)NAN; std::vector<T> X = g.X;
  struct F { T *e; ~F() { free(e); } } fr{e};
  int terms = enc(e, g, g.X, g.n, fl); VT_ASSERT(c, X == g.X, "data modified"); for (size_t j = 0; j < N; ++j) VT_ASSERT(c, !std::isnan(e[j]), "component %zu is NaN (flags %d)", j, fl);
  auto r = reference(g, fl); if (!r.clear) c.discard(); if (g.K > 1 && g.n > 1) c.nontrivial(); c.label("flags %d", fl);
  VT_ASSERT(c, terms >= r.lo && terms <= r.hi, "reports %d averaging operations, there are %ld to %ld", terms, r.lo, r.hi);
  if (fl & VL_FISHER_FLAG_FAST) { bool all = true; for (auto v : g.pi) all &= v > 1e-5; if (all) VT_ASSERT(c, terms == (int)g.n, "fast mode reports %d operations for %zu features", terms, g.n); }
  for (size_t j = 0; j < N; ++j) VT_ASSERT(c, fabsl(e[j] - r.e[j]) <= r.t[j] + 1e-30L, "flags %d component %zu of %zu is %.9g, reference %.9Lg (+- %.2Lg)", fl, j, N, (double)e[j], r.e[j], r.t[j]);
  // order of the features
  vt::Stream s = c.stream(); std::vector<size_t> o(g.n); for (size_t i = 0; i < g.n; ++i) o[i] = i; for (size_t i = g.n; i > 1; --i) std::swap(o[i - 1], o[s.below(i)]); for (size_t i = 0; i < g.n; ++i) for (size_t d = 0; d < g.D; ++d) X[i * g.D + d] = g.X[o[i] * g.D + d];
  std::vector<T> e2(N); enc(e2.data(), g, X, g.n, fl); for (size_t j = 0; j < N; ++j) VT_ASSERT(c, fabsl((ld)e[j] - e2[j]) <= 2 * r.t[j] + 1e-30L, "component %zu depends on the order of the vectors: %.9g, %.9g", j, (double)e[j], (double)e2[j]);
  // improved = square root + normalised
  if ((fl & 3) == 3) { enc(e2.data(), g, g.X, g.n, VL_FISHER_FLAG_IMPROVED | (fl & VL_FISHER_FLAG_FAST)); VT_ASSERT(c, !memcmp(e, e2.data(), sizeof(T) * N), "improved differs from square root and normalized"); }
}
VT_CHECK(closed_form, 80000, 2500000, "at least two modes and two vectors, encoding well determined") { if (c.b()) fisher<float>(c); else fisher<double>(c); }

template <class T> static void degenerate(vt::Ctx &c) {
  GM<T> g(c); int fl = (int)c.i(0, 7), what = (int)c.i(0, 3); size_t N = 2 * g.D * g.K; std::vector<T> e(N, (T)NAN); c.label("kind %d", what); c.nontrivial();
  if (what == 0) { std::vector<T> none; int t = enc(e.data(), g, none, 0, fl); VT_ASSERT(c, t == 0, "%d operations on an empty set", t); for (auto v : e) VT_ASSERT(c, v == 0, "encoding of an empty set is %g", (double)v); return; }
  if (what == 1) { for (auto &v : g.X) v = 0; }                                          // zero vectors
  if (what == 2) { for (size_t i = 0; i < g.n; ++i) for (size_t d = 0; d < g.D; ++d) g.X[i * g.D + d] = g.mu[d]; } // all on one mean
  if (what == 3) { for (auto &v : g.X) v = (T)(v * 1e3); }                               // far from every mode
  enc(e.data(), g, g.X, g.n, fl); for (size_t j = 0; j < N; ++j) VT_ASSERT(c, std::isfinite(e[j]), "component %zu is %g", j, (double)e[j]);
  for (size_t k = 0; k < g.K; ++k) if (g.pi[k] == 0) for (size_t d = 0; d < g.D; ++d) VT_ASSERT(c, e[k * g.D + d] == 0 && e[(k + g.K) * g.D + d] == 0, "mode of null prior contributes");
  if (fl & VL_FISHER_FLAG_NORMALIZED) { ld s = 0; for (auto v : e) s += (ld)v * v; VT_ASSERT(c, s < 1e-6L || fabsl(s - 1) < 1e-3L, "squared norm %Lg", s); }
}
VT_CHECK(degenerate, 30000, 600000, "every case (empty sets, zero vectors, vectors on a mean or far away)") { if (c.b()) degenerate<float>(c); else degenerate<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
