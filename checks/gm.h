// random diagonal mixtures with long-double posteriors
#pragma once
#include "avx.h"
#include "vt.h"
#include "vl_all.h"
typedef long double ld;
static double post(float *q, size_t K, size_t n, const float *p, const float *m, size_t D, const float *s, const float *x) { return vl_get_gmm_data_posteriors_f(q, K, n, p, m, D, s, x); }
static double post(double *q, size_t K, size_t n, const double *p, const double *m, size_t D, const double *s, const double *x) { return vl_get_gmm_data_posteriors_d(q, K, n, p, m, D, s, x); }
template <class T> struct GM {
  static constexpr ld EPS = std::numeric_limits<T>::epsilon(); static vl_type type() { return sizeof(T) == 4 ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE; }
  size_t D, K, n; std::vector<T> X, pi, mu, cov; ld scale = 0; uint32_t rs; int cls;
  GM(vt::Ctx &c, bool model = true, size_t nmax = 60) {
    D = c.small(1, 20); if (c.chance(1, 2)) D = c.i(1, 5); K = c.small(1, 6); n = c.small(1, (int)nmax); cls = c.i(0, 4); vt::Stream s = c.stream(); X.resize(n * D); size_t B = 1 + s.below(4); std::vector<double> ctr(B * D); for (auto &v : ctr) v = s.real(-4, 4); double sp = s.real(0.2, 1.5);
    for (size_t i = 0; i < n; ++i) { size_t b = s.below(B); for (size_t d = 0; d < D; ++d) { double v; switch (cls) { case 0: v = s.gauss(); break; case 1: v = ctr[b * D + d] + sp * s.gauss(); break; case 2: v = (double)s.range(0, 3); break; case 3: v = d % 2 ? 1.5 : s.real(0, 5); break; default: v = 20 + 3 * s.gauss() * (d + 1); } X[i * D + d] = (T)v; } } for (auto v : X) scale = std::max(scale, fabsl((ld)v));
    simd_mode(c); rs = (uint32_t)c.i(0, 10000); vl_rand_seed(vl_get_rand(), rs);
    if (model) { pi.resize(K); mu.resize(K * D); cov.resize(K * D); double sum = 0; std::vector<double> w(K); for (auto &v : w) { v = s.real(0.1, 1); sum += v; } if (K > 1 && s.below(6) == 0) { size_t z = s.below(K); sum -= w[z]; w[z] = 0; } for (size_t k = 0; k < K; ++k) { pi[k] = (T)(w[k] / sum); size_t i = s.below(n); int m = (int)s.below(3); for (size_t d = 0; d < D; ++d) { mu[k * D + d] = (T)(m == 0 ? (double)X[i * D + d] : m == 1 ? X[i * D + d] + s.gauss() : s.gauss() * 3); cov[k * D + d] = (T)exp(s.real(-2.5, 2.5)); } } }
    c.note("%s D=%zu K=%zu n=%zu class %d\n", sizeof(T) == 4 ? "float" : "double", D, K, n, cls); c.label("class %d %s", cls, sizeof(T) == 4 ? "float" : "double"); }
  // log joint density, clamped prior as in the library
  ld logp(size_t i, size_t k, const std::vector<T> &pi, const std::vector<T> &mu, const std::vector<T> &cov, ld *mag = NULL) const { if (pi[k] < (T)1e-6) return -HUGE_VALL; ld a = logl((ld)pi[k]) - 0.5L * D * logl(2 * M_PIl), mg = fabsl(a); for (size_t d = 0; d < D; ++d) { ld e = (ld)X[i * D + d] - mu[k * D + d]; ld t = e * e / cov[k * D + d]; a -= 0.5L * (logl((ld)cov[k * D + d]) + t); mg += fabsl(logl((ld)cov[k * D + d])) + t; } if (mag) *mag = mg; return a; }
  struct P { std::vector<ld> q, tol; ld LL, lltol; };
  P posteriors(const std::vector<T> &pi, const std::vector<T> &mu, const std::vector<T> &cov) const { P r; r.q.resize(n * K); r.tol.resize(n * K); r.LL = r.lltol = 0; for (size_t i = 0; i < n; ++i) { std::vector<ld> l(K), m(K); ld mx = -HUGE_VALL, mm = 0; for (size_t k = 0; k < K; ++k) { m[k] = 0; l[k] = logp(i, k, pi, mu, cov, &m[k]); mx = std::max(mx, l[k]); } ld s = 0; for (size_t k = 0; k < K; ++k) { s += expl(l[k] - mx); if (l[k] > mx - 60) mm = std::max(mm, m[k]); } for (size_t k = 0; k < K; ++k) { r.q[i * K + k] = expl(l[k] - mx) / s; ld t = 12 * EPS * (mm + (l[k] > -1e300L ? m[k] : 0) + D + 8); r.tol[i * K + k] = std::min<ld>(1, (r.q[i * K + k] + (l[k] > -1e300L ? 0 : 0)) * (expl(std::min<ld>(t, 50)) - 1) * 2 + 1e-30L) + EPS * 4; if (t > 0.1L) r.tol[i * K + k] = 1; } r.LL += mx + logl(s); r.lltol += 12 * EPS * (mm + D + 8); } r.lltol += 1e-13L * fabsl(r.LL); return r; }
};
