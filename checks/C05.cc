// C05: GMM posteriors, log-likelihood, EM updates, initialisation and repetitions against long-double references.
// VT-LDFLAGS: -Wl,--wrap=vl_cpu_has_avx
#include "vt.h"
#include "vl_all.h"
#include "gm.h"
static const double MINPOST = 1e-2;
#define VEC(p, N) std::vector<T>((const T *)(p), (const T *)(p) + (N))

template <class T> static void posteriors(vt::Ctx &c) {
  GM<T> g(c); if (g.K > 1) c.nontrivial(); T *q = (T *)malloc(sizeof(T) * g.n * g.K); double LL = post(q, g.K, g.n, g.pi.data(), g.mu.data(), g.D, g.cov.data(), g.X.data()); auto r = g.posteriors(g.pi, g.mu, g.cov);
  VT_ASSERT(c, fabsl(LL - r.LL) <= r.lltol, "log-likelihood %.10g, reference %.10Lg", LL, r.LL); for (size_t i = 0; i < g.n; ++i) { ld s = 0; for (size_t k = 0; k < g.K; ++k) { ld v = q[i * g.K + k]; VT_ASSERT(c, v >= 0 && v <= 1 + 4 * GM<T>::EPS && fabsl(v - r.q[i * g.K + k]) <= r.tol[i * g.K + k], "posterior of mode %zu for point %zu is %.9Lg, reference %.9Lg", k, i, v, r.q[i * g.K + k]); s += v; } VT_ASSERT(c, fabsl(s - 1) <= (g.K + 4) * GM<T>::EPS, "posteriors of point %zu sum to %.9Lg", i, s); } free(q);
}
VT_CHECK(posteriors, 80000, 2000000, "at least two modes") { if (c.b()) posteriors<float>(c); else posteriors<double>(c); }

// reference maximisation; false if a posterior is too close to the sparsification threshold to call
template <class T> struct Mx { std::vector<ld> pi, mu, cov, tmu, tcov; bool skipped = false, clear = true, empty = false, bounded = false; };
template <class T> static Mx<T> maximise(const GM<T> &g, const typename GM<T>::P &p, const std::vector<T> &oldmu, const std::vector<double> &lb) {
  Mx<T> r; size_t K = g.K, D = g.D; r.pi.assign(K, 0); r.mu.assign(K * D, 0); r.cov.assign(K * D, 0); r.tmu.assign(K * D, 0); r.tcov.assign(K * D, 0); ld th = MINPOST / K, tot = 0; const ld E = GM<T>::EPS;
  for (size_t k = 0; k < K; ++k) { ld m = 0, perr = 0; std::vector<size_t> use; for (size_t i = 0; i < g.n; ++i) { ld q = p.q[i * K + k], t = p.tol[i * K + k]; if (fabsl(q - th) <= 2 * t + 1e-9L) r.clear = false; if (q < th) { if (q > 1e-9L) r.skipped = true; continue; } m += q; perr += t; use.push_back(i); }
    r.pi[k] = m; tot += m; if (m < 1e-3L) { r.empty = true; continue; }
    ld rel = perr / m + (g.n + 8) * E;
    for (size_t d = 0; d < D; ++d) { ld a = 0, aa = 0, lo = HUGE_VALL, hi = -HUGE_VALL; for (auto i : use) { ld x = g.X[i * D + d]; a += p.q[i * K + k] * x; aa += p.q[i * K + k] * fabsl(x); lo = std::min(lo, x); hi = std::max(hi, x); } a /= m; aa /= m; ld v = 0, om = 0; for (auto i : use) { ld x = g.X[i * D + d]; v += p.q[i * K + k] * (x - a) * (x - a); ld e = x - oldmu[k * D + d]; om = std::max(om, e * e); } v /= m; r.mu[k * D + d] = a; r.tmu[k * D + d] = 4 * rel * (aa + 0) + 8 * E * fabsl(a); r.tcov[k * D + d] = 8 * rel * (om + (hi - lo) * (hi - lo)) + 1e-30L; if (v < lb[d] + r.tcov[k * D + d]) r.bounded = true; r.cov[k * D + d] = std::max<ld>(v, (T)lb[d]); } }
  for (auto &v : r.pi) v /= tot; return r; }
template <class T> static void check_model(vt::Ctx &c, const GM<T> &g, VlGMM *m, const std::vector<double> &lb, double LL, bool have_post) {
  size_t K = g.K, D = g.D; std::vector<T> pi = VEC(vl_gmm_get_priors(m), K), mu = VEC(vl_gmm_get_means(m), K * D), cov = VEC(vl_gmm_get_covariances(m), K * D); ld s = 0; for (auto v : pi) { VT_ASSERT(c, v >= 0 && v <= 1 + 8 * GM<T>::EPS, "prior %g", (double)v); s += v; } VT_ASSERT(c, fabsl(s - 1) <= (K + 8) * GM<T>::EPS, "priors sum to %.9Lg", s);
  for (size_t j = 0; j < K * D; ++j) { VT_ASSERT(c, std::isfinite(mu[j]), "mean is not finite"); VT_ASSERT(c, cov[j] >= (T)lb[j % D], "covariance of mode %zu dimension %zu is %g, below its lower bound %g", j / D, j % D, (double)cov[j], lb[j % D]); }
  for (size_t k = 0; k < K; ++k) if (fabs(pi[k] - 1e-6) < 1e-8) return;
  auto r = g.posteriors(pi, mu, cov); VT_ASSERT(c, fabsl(LL - r.LL) <= r.lltol, "log-likelihood reported %.10g, that of the returned model is %.10Lg", LL, r.LL); VT_ASSERT(c, vl_gmm_get_loglikelihood(m) == LL, "log-likelihood query gives %g, the fit returned %g", vl_gmm_get_loglikelihood(m), LL);
  VT_ASSERT(c, vl_gmm_get_num_data(m) == g.n && vl_gmm_get_dimension(m) == D && vl_gmm_get_num_clusters(m) == K, "object dimensions wrong");
  if (have_post) { const T *q = (const T *)vl_gmm_get_posteriors(m); for (size_t j = 0; j < g.n * K; ++j) VT_ASSERT(c, fabsl(q[j] - r.q[j]) <= r.tol[j], "stored posterior of point %zu mode %zu is %.9g, that of the returned model is %.9Lg", j / K, j % K, (double)q[j], r.q[j]); } }
template <class T> static std::vector<double> bounds(vt::Ctx &c, const GM<T> &g, VlGMM *m) { std::vector<double> lb(g.D, 1e-4); const double *b0 = vl_gmm_get_covariance_lower_bounds(m); for (size_t d = 0; d < g.D; ++d) VT_ASSERT(c, b0[d] == 1e-4, "default bound"); switch (c.i(0, 3)) { case 0: break; case 1: { double v = c.pick({1e-6, 1e-2, 0.5, 3.0}); lb.assign(g.D, v); vl_gmm_set_covariance_lower_bound(m, v); break; } default: { vt::Stream s = c.stream(); for (auto &v : lb) v = exp(s.real(-9, 0.5)); vl_gmm_set_covariance_lower_bounds(m, lb.data()); } } const double *b = vl_gmm_get_covariance_lower_bounds(m); for (size_t d = 0; d < g.D; ++d) VT_ASSERT(c, b[d] == lb[d], "bound of dimension %zu reads %g, set %g", d, b[d], lb[d]); return lb; }

template <class T> static void em(vt::Ctx &c) {
  GM<T> g(c); VlGMM *m = vl_gmm_new(GM<T>::type(), g.D, g.K); auto lb = bounds(c, g, m); vl_gmm_set_priors(m, g.pi.data()); vl_gmm_set_means(m, g.mu.data()); vl_gmm_set_covariances(m, g.cov.data()); size_t it = c.i(0, 1); vl_gmm_set_max_num_iterations(m, it); if (c.chance(1, 5)) { VlGMM *o = vl_gmm_new_copy(m); vl_gmm_delete(m); m = o; } std::vector<T> cov = g.cov; for (size_t j = 0; j < cov.size(); ++j) cov[j] = std::max(cov[j], (T)lb[j % g.D]); auto p = g.posteriors(g.pi, g.mu, cov);
  double LL = vl_gmm_em(m, g.X.data(), g.n); auto done = [&]() { vl_gmm_delete(m); };
  if (it == 0) { VT_ASSERT(c, VEC(vl_gmm_get_covariances(m), cov.size()) == cov && VEC(vl_gmm_get_means(m), g.mu.size()) == g.mu && VEC(vl_gmm_get_priors(m), g.K) == g.pi, "no iteration but the parameters changed"); check_model(c, g, m, lb, LL, true); done(); return; }
  auto r = maximise(g, p, g.mu, lb); if (!r.clear) { done(); c.discard(); } bool none = true; for (auto v : r.pi) if (v > 0) none = false; if (none) { done(); return; } if (g.K > 1 && !r.empty) c.nontrivial(); if (r.skipped) c.label("sparsified"); if (r.bounded) c.label("bounded");
  std::vector<T> pi = VEC(vl_gmm_get_priors(m), g.K), mu = VEC(vl_gmm_get_means(m), g.mu.size()), cv = VEC(vl_gmm_get_covariances(m), cov.size());
  for (size_t k = 0; k < g.K; ++k) { ld pe = 0; for (size_t i = 0; i < g.n; ++i) pe += p.tol[i * g.K + k]; VT_ASSERT(c, fabsl(pi[k] - r.pi[k]) <= 4 * (pe / g.n + (g.n + 8) * GM<T>::EPS), "prior of mode %zu after one iteration is %.9g, reference %.9Lg", k, (double)pi[k], r.pi[k]); if (r.pi[k] * g.n < 1e-3L) continue;
    for (size_t d = 0; d < g.D; ++d) { size_t j = k * g.D + d; VT_ASSERT(c, fabsl(mu[j] - r.mu[j]) <= r.tmu[j], "mean of mode %zu dimension %zu is %.9g, reference %.9Lg (+-%.2Lg)", k, d, (double)mu[j], r.mu[j], r.tmu[j]); VT_ASSERT(c, fabsl(cv[j] - r.cov[j]) <= r.tcov[j] + 4 * GM<T>::EPS * r.cov[j], "covariance of mode %zu dimension %zu is %.9g, reference %.9Lg (+-%.2Lg, bound %g)", k, d, (double)cv[j], r.cov[j], r.tcov[j], lb[d]); } }
  check_model(c, g, m, lb, LL, true); done();
}
VT_CHECK(em_iteration, 60000, 1500000, "at least two modes, none empty, no posterior at the sparsification threshold") { if (c.b()) em<float>(c); else em<double>(c); }

template <class T> static void monotone(vt::Ctx &c) {
  GM<T> g(c, true, 100); std::vector<double> lb(g.D, 1e-4); double prev = -HUGE_VAL; ld ptol = 0; bool ok = true; int N = c.i(2, 8); std::vector<T> pi = g.pi, mu = g.mu, cov = g.cov; VlGMM *m = vl_gmm_new(GM<T>::type(), g.D, g.K); size_t compared = 0; struct Del { VlGMM *m; ~Del() { vl_gmm_delete(m); } } del{m};
  for (int it = 0; it <= N; ++it) { vl_gmm_set_priors(m, g.pi.data()); vl_gmm_set_means(m, g.mu.data()); vl_gmm_set_covariances(m, g.cov.data()); vl_gmm_set_max_num_iterations(m, it); double LL = vl_gmm_em(m, g.X.data(), g.n); check_model(c, g, m, lb, LL, true);
    std::vector<T> p2 = VEC(vl_gmm_get_priors(m), g.K), m2 = VEC(vl_gmm_get_means(m), mu.size()), c2 = VEC(vl_gmm_get_covariances(m), cov.size()); auto q = g.posteriors(p2, m2, c2);
    if (it && ok) { ++compared; VT_ASSERT(c, LL >= prev - 4 * (q.lltol + ptol) - 1e-9 * fabs(prev), "log-likelihood falls from %.12g to %.12g at iteration %d", prev, LL, it); }
    auto r = maximise(g, q, m2, lb); ok = r.clear && !r.skipped && !r.bounded; for (auto v : r.pi) if (v * g.n < std::max(1.0, (double)g.n / g.K) * 0.02) ok = false; for (auto v : p2) if (v < 1e-5) ok = false; prev = LL; ptol = q.lltol; }
  if (g.K > 1 && compared) c.nontrivial();
}
VT_CHECK(likelihood_monotone, 30000, 600000, "at least two modes and one step with neither bounds, sparsification nor empty modes") { if (c.b()) monotone<float>(c); else monotone<double>(c); }

template <class T> static void inits(vt::Ctx &c) {
  GM<T> g(c, false); VlGMM *m = vl_gmm_new(GM<T>::type(), g.D, g.K); std::vector<double> lb = bounds(c, g, m); bool km = c.b(), user = km && c.b(); size_t K = g.K, D = g.D, n = g.n; if (km && K > n) { vl_gmm_delete(m); c.discard(); } VlKMeans *uk = NULL; if (K > 1 && n > 2) c.nontrivial(); const ld E = GM<T>::EPS;
  if (user) { uk = vl_kmeans_new(GM<T>::type(), VlDistanceL2); vl_kmeans_set_initialization(uk, c.b() ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_algorithm(uk, c.b() ? VlKMeansElkan : VlKMeansLloyd); }
  if (c.chance(1, 4)) { vl_gmm_init_with_rand_data(m, g.X.data(), n); }
  if (km) vl_gmm_init_with_kmeans(m, g.X.data(), n, uk); else vl_gmm_init_with_rand_data(m, g.X.data(), n);
  std::vector<T> pi = VEC(vl_gmm_get_priors(m), K), mu = VEC(vl_gmm_get_means(m), K * D), cv = VEC(vl_gmm_get_covariances(m), K * D);
  if (!km) { for (size_t k = 0; k < K; ++k) { VT_ASSERT(c, fabsl(pi[k] - 1.0L / K) <= 2 * E, "initial prior %g", (double)pi[k]); bool is = false; for (size_t i = 0; i < n; ++i) is |= !memcmp(&g.X[i * D], &mu[k * D], sizeof(T) * D); VT_ASSERT(c, is, "initial mean %zu is not a data point", k); }
    for (size_t d = 0; d < D; ++d) { ld a = 0, v = 0, mx = 0; for (size_t i = 0; i < n; ++i) { a += g.X[i * D + d]; mx = std::max(mx, fabsl((ld)g.X[i * D + d])); } a /= n; for (size_t i = 0; i < n; ++i) { ld e = g.X[i * D + d] - a; v += e * e; } if (n > 1) v /= n - 1; ld t = (4 * n + 16) * E * (v + mx * sqrtl(v) + E * n * mx * mx * n) + 1e-30L; for (size_t k = 0; k < K; ++k) VT_ASSERT(c, fabsl(cv[k * D + d] - v) <= t, "initial covariance of mode %zu dimension %zu is %.9g, data covariance %.9Lg", k, d, (double)cv[k * D + d], v); } }
  else { VlKMeans *kk = vl_gmm_get_kmeans_init_object(m); VT_ASSERT(c, kk && (!user || kk == uk), "k-means object not kept"); const T *C = (const T *)vl_kmeans_get_centers(kk); std::vector<std::vector<size_t>> cl(K); for (size_t i = 0; i < n; ++i) { ld b = HUGE_VALL; size_t a = 0; bool tie = false; ld scale2 = 0; for (size_t k = 0; k < K; ++k) { ld s = 0; for (size_t d = 0; d < D; ++d) { ld e = (ld)g.X[i * D + d] - C[k * D + d]; s += e * e; } scale2 = std::max(scale2, s); if (s < b) { tie = b - s <= 1e-4L * b; b = s; a = k; } else if (s - b <= 1e-4L * s) tie = true; } if (tie) { vl_gmm_delete(m); if (uk) vl_kmeans_delete(uk); c.discard(); } cl[a].push_back(i); }
    for (size_t k = 0; k < K; ++k) { VT_ASSERT(c, fabsl(pi[k] - (ld)cl[k].size() / n) <= 8 * E, "initial prior of mode %zu is %g, its cluster has %zu of %zu points", k, (double)pi[k], cl[k].size(), n); if (cl[k].empty()) continue; for (size_t d = 0; d < D; ++d) { ld a = 0, v = 0, q = 0; for (auto i : cl[k]) { a += g.X[i * D + d]; q = std::max(q, fabsl((ld)g.X[i * D + d])); } a /= cl[k].size(); for (auto i : cl[k]) { ld e = g.X[i * D + d] - a; v += e * e; } v = std::max<ld>(v / cl[k].size(), (T)lb[d]); ld t = (8 * n + 32) * E; VT_ASSERT(c, fabsl(mu[k * D + d] - a) <= t * q, "initial mean of mode %zu dimension %zu is %.9g, cluster mean %.9Lg", k, d, (double)mu[k * D + d], a); VT_ASSERT(c, fabsl(cv[k * D + d] - v) <= t * (q * q + v), "initial covariance of mode %zu dimension %zu is %.9g, cluster covariance %.9Lg", k, d, (double)cv[k * D + d], v); } } }
  vl_gmm_delete(m); if (uk) vl_kmeans_delete(uk);
}
VT_CHECK(initialisation, 40000, 1000000, "at least two modes and three points") { if (c.b()) inits<float>(c); else inits<double>(c); }

template <class T> static void cluster(vt::Ctx &c) {
  GM<T> g(c); VlGMM *m = vl_gmm_new(GM<T>::type(), g.D, g.K); auto lb = bounds(c, g, m); int init = c.i(0, 2); if (init == 0 && g.K > g.n) init = 1; vl_gmm_set_initialization(m, init == 0 ? VlGMMKMeans : init == 1 ? VlGMMRand : VlGMMCustom); size_t rep = c.i(1, 3), it = c.i(0, 12); vl_gmm_set_num_repetitions(m, rep); vl_gmm_set_max_num_iterations(m, it); if (g.K > 1 && g.n > 3) c.nontrivial(); c.label("init %d", init);
  if (init == 2) { vl_gmm_set_priors(m, g.pi.data()); vl_gmm_set_means(m, g.mu.data()); vl_gmm_set_covariances(m, g.cov.data()); }
  VT_ASSERT(c, vl_gmm_get_num_repetitions(m) == rep && vl_gmm_get_max_num_iterations(m) == it && vl_gmm_get_data_type(m) == GM<T>::type(), "parameters not stored"); VlGMM *o = vl_gmm_new_copy(m);
  VT_ASSERT(c, vl_gmm_get_num_repetitions(o) == rep && vl_gmm_get_max_num_iterations(o) == it && vl_gmm_get_initialization(o) == vl_gmm_get_initialization(m) && vl_gmm_get_dimension(o) == g.D && vl_gmm_get_num_clusters(o) == g.K && !memcmp(vl_gmm_get_covariance_lower_bounds(o), lb.data(), 8 * g.D), "the copy has other parameters");
  if (c.chance(1, 3)) { // process something else first
    size_t n2 = std::max<size_t>(g.K, (g.n + 1) / 2); if (n2 <= g.n && init != 2) { vl_gmm_cluster(m, g.X.data(), n2); } }
  vl_rand_seed(vl_get_rand(), g.rs); double LL = vl_gmm_cluster(m, g.X.data(), g.n); check_model(c, g, m, lb, LL, true);
  vl_gmm_set_num_repetitions(o, 1); vl_rand_seed(vl_get_rand(), g.rs); double best = -HUGE_VAL; for (size_t r = 0; r < (init == 2 ? 1 : rep); ++r) best = std::max(best, vl_gmm_cluster(o, g.X.data(), g.n)); VT_ASSERT(c, fabs(best - LL) <= 1e-12 * fabs(LL), "best of %zu repetitions has log-likelihood %.12g, clustering returned %.12g", rep, best, LL); vl_gmm_delete(o); check_model(c, g, m, lb, LL, true); if (c.b()) { vl_gmm_reset(m); VT_ASSERT(c, vl_gmm_get_posteriors(m) == NULL && vl_gmm_get_num_data(m) == 0, "reset keeps posteriors"); } vl_gmm_delete(m);
}
VT_CHECK(cluster, 25000, 600000, "at least two modes and four points") { if (c.b()) cluster<float>(c); else cluster<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
