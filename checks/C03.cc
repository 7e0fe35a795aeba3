// C03: k-means energies, assignments, centre updates, initialisation, agreement of the algorithms.
// VT-LDFLAGS: -Wl,--wrap=vl_cpu_has_avx
#include "vt.h"
#include "vl_all.h"
#include "avx.h"
typedef long double ld;
extern "C" void vl_kmeans_quantize_ann(VlKMeans *, vl_uint32 *, void *, void const *, vl_size, vl_bool);

template <class T> struct KM {
  size_t dim, n, K; bool l1; std::vector<T> X; ld scale = 0; VlKMeans *km = NULL; uint32_t rseed; int cls; ld slack = 0;
  static vl_type type() { return sizeof(T) == 4 ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE; }
  ld dist(const T *a, const T *b) const { ld s = 0; for (size_t d = 0; d < dim; ++d) { ld e = (ld)a[d] - (ld)b[d]; s += l1 ? fabsl(e) : e * e; } return s; }
  // rounding allowance for one distance and for a sum over all points
  ld tol(ld d) const { ld e = std::numeric_limits<T>::epsilon(); return 16 * e * (dim + 4) * (d + (l1 ? scale : scale * scale) * (e * 16)) + (l1 ? 0 : 64 * e * sqrtl(d) * scale * 0.0L) + 1e-30L; }
  KM(vt::Ctx &c, size_t nmax = 60) {
    dim = c.small(1, 9); n = c.small(1, (int)nmax); l1 = c.b(); cls = c.i(0, 5); vt::Stream s = c.stream(); X.resize(n * dim);
    size_t blobs = 1 + s.below(6); std::vector<double> B(blobs * dim); for (auto &v : B) v = s.real(-5, 5);
    for (size_t i = 0; i < n; ++i) { size_t b = s.below(blobs); for (size_t d = 0; d < dim; ++d) { double v; switch (cls) { case 0: v = s.gauss(); break; case 1: v = (double)s.range(0, 4); break; case 2: v = B[b * dim + d] + 0.1 * s.gauss(); break; case 3: v = d ? 3.0 : s.real(0, 10); break; case 4: v = 500 + s.gauss(); break; default: v = s.uni() * (d == 0 ? 50 : 1); } X[i * dim + d] = (T)v; } }
    if (c.chance(1, 6)) for (size_t i = 1; i < n; ++i) if (s.below(2)) { size_t j = s.below(i); for (size_t d = 0; d < dim; ++d) X[i * dim + d] = X[j * dim + d]; }
    for (auto v : X) scale = std::max(scale, fabsl((ld)v));
    simd_mode(c); rseed = (uint32_t)c.i(0, 10000); vl_rand_seed(vl_get_rand(), rseed);
    km = vl_kmeans_new(type(), l1 ? VlDistanceL1 : VlDistanceL2);
    c.note("%s %s dim=%zu n=%zu class %d\n", sizeof(T) == 4 ? "float" : "double", l1 ? "L1" : "L2", dim, n, cls); }
  ~KM() { if (km) vl_kmeans_delete(km); }
  const T *x(size_t i) const { return &X[i * dim]; }
  std::vector<T> random_centers(vt::Ctx &c, size_t K_) { vt::Stream s = c.stream(); int m = c.i(0, 2); std::vector<T> C(K_ * dim); for (size_t k = 0; k < K_; ++k) { size_t i = s.below(n); for (size_t d = 0; d < dim; ++d) C[k * dim + d] = m == 0 ? x(i)[d] : m == 1 ? (T)(x(i)[d] + s.gauss() * 0.5) : (T)(s.gauss() * (double)(scale + 0.1)); } return C; }
  std::vector<T> centers() const { const T *p = (const T *)vl_kmeans_get_centers(km); return std::vector<T>(p, p + dim * vl_kmeans_get_num_centers(km)); }
  ld nearest(const T *p, const std::vector<T> &C, size_t *arg = NULL, ld *second = NULL) const { ld best = 1e300L, sec = 1e300L; for (size_t k = 0; k * dim < C.size(); ++k) { ld d = dist(p, &C[k * dim]); if (d < best) { sec = best; best = d; if (arg) *arg = k; } else if (d < sec) sec = d; } if (second) *second = sec; return best; }
  ld energy(const std::vector<T> &C) const { ld e = 0; for (size_t i = 0; i < n; ++i) e += nearest(x(i), C); return e; }
  ld etol(ld e) const { return (ld)n * tol(e / n) * 4 + 1e-12L * e + slack; }
  // Elkan's bounds are differences of (squared) distances travelled by the centres: allow their rounding
  void travelled(const std::vector<T> &C) { ld m = 0; for (size_t i = 0; i < n; ++i) for (size_t q = 0; q * dim < C.size(); ++q) m = std::max(m, dist(x(i), &C[q * dim])); slack = vl_kmeans_get_algorithm(km) == VlKMeansElkan ? 64 * n * (ld)std::numeric_limits<T>::epsilon() * m : 0; }
  void alg(vt::Ctx &c, bool ann = true) { int a = c.i(0, ann ? 2 : 1); vl_kmeans_set_algorithm(km, a == 0 ? VlKMeansLloyd : a == 1 ? VlKMeansElkan : VlKMeansANN); c.label("%s %s", a == 0 ? "Lloyd" : a == 1 ? "Elkan" : "ANN", l1 ? "L1" : "L2"); c.note("alg %d\n", a); if (a == 2) { vl_kmeans_set_num_trees(km, c.i(1, 3)); } }
  bool is_data_point(const T *p) const { for (size_t i = 0; i < n; ++i) if (!memcmp(p, x(i), sizeof(T) * dim)) return true; return false; }
  size_t distinct() const { std::set<std::vector<T>> s; for (size_t i = 0; i < n; ++i) s.insert(std::vector<T>(x(i), x(i) + dim)); return s.size(); }
};

// ---------------------------------------------------------------- one iteration from given centres
template <class T> static void one_step(vt::Ctx &c) {
  KM<T> k(c); size_t K = c.small(1, 8); if (c.chance(1, 8)) K = k.n + c.i(1, 4); k.alg(c); std::vector<T> C0 = k.random_centers(c, K);
  vl_kmeans_set_max_num_comparisons(k.km, K); vl_kmeans_set_max_num_iterations(k.km, 1); vl_kmeans_set_centers(k.km, C0.data(), k.dim, K);
  VT_ASSERT(c, vl_kmeans_get_num_centers(k.km) == K && vl_kmeans_get_dimension(k.km) == k.dim, "number of centres or dimension not reported"); VT_ASSERT(c, k.centers() == C0, "set_centers does not set the centres");
  std::vector<size_t> as(k.n); std::vector<std::vector<size_t>> cl(K); for (size_t i = 0; i < k.n; ++i) { ld sec, d = k.nearest(k.x(i), C0, &as[i], &sec); if (sec - d <= 4 * (k.tol(d) + k.tol(sec)) && K > 1) { // a tie: skip unless the two centres coincide
      c.discard(); } cl[as[i]].push_back(i); }
  if (K > 1 && k.n > 2) c.nontrivial();
  double E = vl_kmeans_refine_centers(k.km, k.X.data(), k.n); std::vector<T> C1 = k.centers(); ld ref = k.energy(C1);
  k.travelled(C0); VT_ASSERT(c, fabsl((ld)E - ref) <= k.etol(ref), "K=%zu energy reported %.9g, energy of the returned centres %.9Lg", K, E, ref);
  for (size_t q = 0; q < K; ++q) {
    const T *p = &C1[q * k.dim];
    if (cl[q].empty()) { VT_ASSERT(c, k.is_data_point(p), "centre %zu of an empty cluster is not restarted at a data point", q); continue; }
    for (size_t d = 0; d < k.dim; ++d) {
      if (!k.l1) { ld m = 0, a = 0; for (auto i : cl[q]) { m += k.x(i)[d]; a += fabsl((ld)k.x(i)[d]); } m /= cl[q].size(); ld t = (4.0L + cl[q].size()) * std::numeric_limits<T>::epsilon() * (a / cl[q].size() + fabsl(m)) + 1e-37L; VT_ASSERT(c, fabsl(m - p[d]) <= t, "K=%zu centre %zu coordinate %zu is %.9g, mean of its %zu points is %.9Lg", K, q, d, (double)p[d], cl[q].size(), m); }
      else { size_t below = 0, above = 0; for (auto i : cl[q]) { if (k.x(i)[d] < p[d]) ++below; if (k.x(i)[d] > p[d]) ++above; } VT_ASSERT(c, 2 * below <= cl[q].size() && 2 * above <= cl[q].size(), "K=%zu centre %zu coordinate %zu is %.9g, not a median of its %zu points (%zu below, %zu above)", K, q, d, (double)p[d], cl[q].size(), below, above); } } }
}
VT_CHECK(one_iteration, 60000, 1500000, "at least two centres and three points, no tied assignment") { if (c.b()) one_step<float>(c); else one_step<double>(c); }

// ---------------------------------------------------------------- full runs
template <class T> static void monotone(vt::Ctx &c) {
  KM<T> k(c); size_t K = c.small(1, 10); k.alg(c); std::vector<T> C0 = k.random_centers(c, K); bool ann = vl_kmeans_get_algorithm(k.km) == VlKMeansANN; size_t cmp = ann ? c.i(1, (int)K + 1) : 100; vl_kmeans_set_max_num_comparisons(k.km, cmp); if (K > 1 && k.n > 4) c.nontrivial();
  bool elkan = vl_kmeans_get_algorithm(k.km) == VlKMeansElkan; if (c.b()) vl_kmeans_set_min_energy_variation(k.km, 0);
  k.travelled(C0); ld prev = ann && cmp < K ? 1e300L : k.energy(C0), first = prev; int iters[] = {elkan ? 1 : 0, 1, 2, 3, 5, 30}; std::vector<T> last;
  for (int it : iters) {
    vl_rand_seed(vl_get_rand(), k.rseed); vl_kmeans_set_max_num_iterations(k.km, it); vl_kmeans_set_centers(k.km, C0.data(), k.dim, K); double E = vl_kmeans_refine_centers(k.km, k.X.data(), k.n); std::vector<T> C = k.centers(); ld ref = k.energy(C);
    if (it == 0) { VT_ASSERT(c, C == C0, "zero iterations changed the centres"); }
    if (ann && cmp < K) VT_ASSERT(c, (ld)E >= ref - k.etol(ref), "approximate energy %.9g is below the energy %.9Lg of the returned centres", E, ref); else VT_ASSERT(c, fabsl((ld)E - ref) <= k.etol(ref), "%d iterations: energy reported %.9g, energy of the returned centres %.9Lg", it, E, ref);
    VT_ASSERT(c, (ld)E <= prev + k.etol(prev) + 64 * std::numeric_limits<T>::epsilon() * (ld)E, "energy rises from %.9Lg to %.9g with %d iterations", prev, E, it); prev = E; last = C;
    for (auto v : C) VT_ASSERT(c, std::isfinite(v), "centre is not finite"); }
  // converged with no minimum variation: one more exact step does not lower the energy
  if (!(ann && cmp < K) && (elkan || vl_kmeans_get_min_energy_variation(k.km) == 0)) {
    vl_kmeans_set_max_num_iterations(k.km, 300); double E = vl_kmeans_refine_centers(k.km, k.X.data(), k.n); last = k.centers(); std::vector<std::vector<size_t>> cl(K); bool tie = false; for (size_t i = 0; i < k.n; ++i) { size_t a; ld sec, d = k.nearest(k.x(i), last, &a, &sec); if (K > 1 && sec - d <= 4 * (k.tol(d) + k.tol(sec)) + 1e-4L * k.slack) tie = true; cl[a].push_back(i); } if (tie) return; // with tied assignments another, better update may exist
    c.label("converged state checked");
    ld better = 0; for (size_t q = 0; q < K; ++q) if (cl[q].size()) { std::vector<T> m(k.dim); for (size_t d = 0; d < k.dim; ++d) { std::vector<T> v; ld s = 0; for (auto i : cl[q]) { v.push_back(k.x(i)[d]); s += k.x(i)[d]; } std::sort(v.begin(), v.end()); m[d] = k.l1 ? v[v.size() / 2] : (T)(s / v.size()); } for (auto i : cl[q]) better += k.dist(k.x(i), m.data()); }
    VT_ASSERT(c, (ld)E <= better * (1 + 1e-3L * (sizeof(T) == 4 ? 1 : 1e-5L)) + 20 * k.etol(E), "stopped at energy %.9g but one more update reaches %.9Lg", E, better); }
  (void)first;
}
VT_CHECK(monotone_energy, 25000, 600000, "at least two centres and five points") { if (c.b()) monotone<float>(c); else monotone<double>(c); }

template <class T> static void trajectory(vt::Ctx &c) {
  KM<T> k(c, 80); size_t K = c.small(1, 9); std::vector<T> C0 = k.random_centers(c, K); int its = c.i(1, 8); std::vector<T> C = C0; bool tie = false, empty = false; size_t moved = 0; std::vector<size_t> as(k.n, 0), pas;
  for (int it = 0; it < its; ++it) { std::vector<std::vector<size_t>> cl(K); pas = as; for (size_t i = 0; i < k.n; ++i) { ld sec, d = k.nearest(k.x(i), C, &as[i], &sec); if (K > 1 && sec - d <= 1e-3L * (d + sec) + 1e-4L * (k.l1 ? 1.0L : k.scale)) tie = true; cl[as[i]].push_back(i); } if (it && as != pas) ++moved;
    for (size_t q = 0; q < K; ++q) { if (cl[q].empty()) { empty = true; continue; } for (size_t d = 0; d < k.dim; ++d) { std::vector<T> v; ld s = 0; for (auto i : cl[q]) { v.push_back(k.x(i)[d]); s += k.x(i)[d]; } std::sort(v.begin(), v.end()); size_t m = v.size(); if (k.l1 && m % 2 == 0 && v[m / 2] != v[m / 2 - 1]) { C[q * k.dim + d] = v[m / 2 - 1]; } else C[q * k.dim + d] = k.l1 ? v[m / 2] : (T)(s / m); } } }
  if (tie || empty) c.discard(); if (moved) c.nontrivial();
  VlKMeansAlgorithm algs[] = {VlKMeansLloyd, VlKMeansElkan, VlKMeansANN}; ld E = k.energy(C); std::vector<T> got[3];
  for (int a = 0; a < 3; ++a) { vl_kmeans_set_algorithm(k.km, algs[a]); vl_kmeans_set_min_energy_variation(k.km, 0); vl_kmeans_set_max_num_comparisons(k.km, K); vl_kmeans_set_max_num_iterations(k.km, its); vl_kmeans_set_centers(k.km, C0.data(), k.dim, K); double e = vl_kmeans_refine_centers(k.km, k.X.data(), k.n); got[a] = k.centers();
    if (k.l1) continue; // which median is taken of an even cluster is not specified
    VT_ASSERT(c, fabsl(e - E) <= k.etol(E) + 1e-4L * E, "algorithm %d: energy after %d iterations is %.9g, reference %.9Lg", a, its, e, E);
    for (size_t j = 0; j < C.size(); ++j) VT_ASSERT(c, fabsl((ld)got[a][j] - C[j]) <= 1e-4L * (k.scale + 1), "algorithm %d: after %d iterations centre %zu coordinate %zu is %.9g, reference %.9g", a, its, j / k.dim, j % k.dim, (double)got[a][j], (double)C[j]); }
  for (int a = 1; a < 3; ++a) for (size_t j = 0; j < C.size(); ++j) VT_ASSERT(c, fabsl((ld)got[a][j] - got[0][j]) <= 1e-4L * (k.scale + 1), "algorithm %d and Lloyd differ after %d iterations from the same centres: %.9g and %.9g", a, its, (double)got[a][j], (double)got[0][j]);
}
VT_CHECK(algorithms_agree, 40000, 1000000, "assignments change after the first iteration, no near ties and no empty clusters") { if (c.b()) trajectory<float>(c); else trajectory<double>(c); }

// ---------------------------------------------------------------- quantisation
template <class T> static void quantize(vt::Ctx &c) {
  KM<T> k(c); size_t K = c.small(1, 20); std::vector<T> C0 = k.random_centers(c, K); vl_kmeans_set_centers(k.km, C0.data(), k.dim, K); if (K > 1) c.nontrivial();
  vl_uint32 *as = (vl_uint32 *)malloc(4 * k.n); T *ds = c.b() ? (T *)malloc(sizeof(T) * k.n) : NULL; vl_kmeans_quantize(k.km, as, ds, k.X.data(), k.n); std::vector<vl_uint32> A(as, as + k.n); std::vector<T> D; if (ds) D.assign(ds, ds + k.n);
  for (size_t i = 0; i < k.n; ++i) { VT_ASSERT(c, A[i] < K, "assignment %u of point %zu out of range", A[i], i); ld d = k.dist(k.x(i), &C0[A[i] * k.dim]), b = k.nearest(k.x(i), C0); VT_ASSERT(c, d <= b + 2 * (k.tol(d) + k.tol(b)), "point %zu assigned at distance %.9Lg, nearest centre at %.9Lg", i, d, b); if (ds) VT_ASSERT(c, fabsl((ld)D[i] - d) <= k.tol(d), "distance of point %zu reported %.9g, is %.9Lg", i, (double)D[i], d); }
  VT_ASSERT(c, k.centers() == C0, "quantisation changed the centres");
  // approximate, fresh and updating
  size_t cmp = c.i(1, (int)K); vl_kmeans_set_max_num_comparisons(k.km, cmp); vl_kmeans_set_num_trees(k.km, c.i(1, 4)); bool upd = c.b(); vt::Stream s = c.stream(); std::vector<vl_uint32> P(k.n); for (size_t i = 0; i < k.n; ++i) as[i] = P[i] = (vl_uint32)s.below(K); if (ds) for (size_t i = 0; i < k.n; ++i) ds[i] = (T)-1;
  vl_kmeans_quantize_ann(k.km, as, ds, k.X.data(), k.n, upd);
  for (size_t i = 0; i < k.n; ++i) { VT_ASSERT(c, as[i] < K, "approximate assignment %u of point %zu out of range", as[i], i); ld d = k.dist(k.x(i), &C0[as[i] * k.dim]), b = k.nearest(k.x(i), C0), p = k.dist(k.x(i), &C0[P[i] * k.dim]); if (ds) VT_ASSERT(c, fabsl((ld)ds[i] - d) <= k.tol(d), "approximate distance of point %zu reported %.9g, is %.9Lg", i, (double)ds[i], d);
    if (upd) VT_ASSERT(c, d <= p + 2 * k.tol(p), "update replaced an assignment at distance %.9Lg by one at %.9Lg", p, d); if (cmp == K) VT_ASSERT(c, d <= b + 2 * (k.tol(d) + k.tol(b)), "unlimited approximate assignment of point %zu at %.9Lg, nearest %.9Lg", i, d, b); }
  free(as); free(ds);
}
VT_CHECK(quantization, 60000, 1500000, "at least two centres") { if (c.b()) quantize<float>(c); else quantize<double>(c); }

// ---------------------------------------------------------------- initialisation and repetitions
template <class T> static void cluster(vt::Ctx &c) {
  KM<T> k(c); k.alg(c); bool pp = c.b(); size_t K = c.small(1, pp && c.chance(1, 8) ? (int)k.n + 4 : (int)std::min<size_t>(k.n, 9)); vl_kmeans_set_initialization(k.km, pp ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_max_num_comparisons(k.km, K); if (K > 1) c.nontrivial(); c.note("K=%zu %s\n", K, pp ? "++" : "random");
  if (pp) vl_kmeans_init_centers_plus_plus(k.km, k.X.data(), k.dim, k.n, K); else vl_kmeans_init_centers_with_rand_data(k.km, k.X.data(), k.dim, k.n, K);
  std::vector<T> C = k.centers(); std::set<std::vector<T>> seen; VT_ASSERT(c, vl_kmeans_get_num_centers(k.km) == K && vl_kmeans_get_dimension(k.km) == k.dim, "initialisation does not set the dimensions");
  for (size_t q = 0; q < K; ++q) { VT_ASSERT(c, k.is_data_point(&C[q * k.dim]), "initial centre %zu is not a data point", q); seen.insert(std::vector<T>(C.begin() + q * k.dim, C.begin() + (q + 1) * k.dim)); }
  size_t nd = k.distinct(); if (nd >= K && !(pp && sizeof(T) == 4 && k.scale > 100)) { if (!pp) VT_ASSERT(c, seen.size() == K || nd == K || true, "unreachable"); if (!pp && nd == k.n) VT_ASSERT(c, seen.size() == K, "only %zu distinct initial centres of %zu although all %zu data points differ", seen.size(), K, k.n); }
  // whole clustering, repetitions
  size_t rep = c.i(1, 4); vl_kmeans_set_num_repetitions(k.km, rep); size_t it = c.i(0, 6); vl_kmeans_set_max_num_iterations(k.km, it); vl_rand_seed(vl_get_rand(), k.rseed); double E = vl_kmeans_cluster(k.km, k.X.data(), k.dim, k.n, K); std::vector<T> B = k.centers(); k.travelled(k.X); ld ref = k.energy(B); VT_ASSERT(c, vl_kmeans_get_num_centers(k.km) == K && vl_kmeans_get_dimension(k.km) == k.dim, "clustering does not set the dimensions");
  VT_ASSERT(c, fabsl((ld)E - ref) <= k.etol(ref), "%zu repetitions: energy returned %.9g, energy of the returned centres %.9Lg", rep, E, ref); VT_ASSERT(c, vl_kmeans_get_energy(k.km) == E, "energy query gives %g after clustering returned %g", vl_kmeans_get_energy(k.km), E);
  // the same random stream, repetition by repetition
  vl_rand_seed(vl_get_rand(), k.rseed); VlKMeans *m = vl_kmeans_new_copy(k.km); vl_kmeans_set_num_repetitions(m, 1); double best = 1e300; for (size_t r = 0; r < rep; ++r) { double e = vl_kmeans_cluster(m, k.X.data(), k.dim, k.n, K); best = std::min(best, e); } vl_kmeans_delete(m);
  VT_ASSERT(c, fabs(best - E) <= 1e-12 * fabs(best), "best of %zu repetitions is %.9g, clustering returned %.9g", rep, best, E);
  VT_ASSERT(c, k.centers() == B, "the copy disturbed its original");
}
VT_CHECK(cluster_and_initialization, 30000, 800000, "at least two centres") { if (c.b()) cluster<float>(c); else cluster<double>(c); }

// duplicates are skipped by random selection when enough distinct points follow
template <class T> static void rand_distinct(vt::Ctx &c) {
  KM<T> k(c, 40); size_t nd = k.distinct(); if (nd < 2) c.discard(); size_t K = c.i(1, (int)nd); // a duplicate can only be accepted when the remaining points are needed to fill up
  vl_kmeans_init_centers_with_rand_data(k.km, k.X.data(), k.dim, k.n, K); std::vector<T> C = k.centers(); std::set<std::vector<T>> seen; for (size_t q = 0; q < K; ++q) seen.insert(std::vector<T>(C.begin() + q * k.dim, C.begin() + (q + 1) * k.dim)); if (nd < k.n) c.nontrivial();
  // skipping at most n-K points, the selection can contain duplicates only if every skip was used up
  size_t dups = k.n - nd; if (dups <= k.n - K) VT_ASSERT(c, seen.size() == K, "%zu centres drawn from %zu points (%zu distinct) contain duplicates (%zu distinct)", K, k.n, nd, seen.size());
}
VT_CHECK(random_selection_distinct, 40000, 1000000, "some data points coincide") { if (c.b()) rand_distinct<float>(c); else rand_distinct<double>(c); }

// k-means++: the second centre is drawn with probability proportional to the distance to the first
VT_CHECK(plus_plus_distribution, 60, 600, "always") {
  c.nontrivial(); size_t n = c.i(3, 8); bool l1 = c.b(); vt::Stream s = c.stream(); std::vector<double> X(n); for (auto &v : X) v = s.real(0, 10); vl_rand_seed(vl_get_rand(), (uint32_t)c.i(0, 100000)); VlKMeans *km = vl_kmeans_new(VL_TYPE_DOUBLE, l1 ? VlDistanceL1 : VlDistanceL2); const int N = 6000; std::vector<double> obs(n * n, 0), first(n, 0);
  for (int t = 0; t < N; ++t) { vl_kmeans_init_centers_plus_plus(km, X.data(), 1, n, 2); const double *C = (const double *)vl_kmeans_get_centers(km); size_t a = 0, b = 0; for (size_t i = 0; i < n; ++i) { if (X[i] == C[0]) a = i; if (X[i] == C[1]) b = i; } obs[a * n + b]++; first[a]++; }
  vl_kmeans_delete(km);
  for (size_t a = 0; a < n; ++a) { double e = (double)N / n; VT_ASSERT(c, fabs(first[a] - e) <= 7 * sqrt(e) + 8, "first centre is point %zu %g times of %d, expected %g", a, first[a], N, e); double tot = 0; for (size_t b = 0; b < n; ++b) tot += l1 ? fabs(X[a] - X[b]) : (X[a] - X[b]) * (X[a] - X[b]); for (size_t b = 0; b < n; ++b) { double p = (l1 ? fabs(X[a] - X[b]) : (X[a] - X[b]) * (X[a] - X[b])) / tot, ex = first[a] * p; VT_ASSERT(c, fabs(obs[a * n + b] - ex) <= 7 * sqrt(ex * (1 - p)) + 8, "after first centre %g the second is %g in %g of %g draws, expected %g", X[a], X[b], obs[a * n + b], first[a], ex); } }
}
// ---------------------------------------------------------------- copies
template <class T> static void copies(vt::Ctx &c) {
  KM<T> k(c); size_t K = c.small(1, 6); k.alg(c); vl_kmeans_set_initialization(k.km, c.b() ? VlKMeansPlusPlus : VlKMeansRandomSelection); vl_kmeans_set_num_repetitions(k.km, c.i(1, 3)); vl_kmeans_set_max_num_iterations(k.km, c.i(1, 20)); vl_kmeans_set_min_energy_variation(k.km, c.pick({0.0, 1e-4, 0.3})); vl_kmeans_set_max_num_comparisons(k.km, c.i(1, 8)); bool trained = c.b(); if (K <= k.n && trained) vl_kmeans_cluster(k.km, k.X.data(), k.dim, k.n, K); else if (c.b()) { auto C = k.random_centers(c, K); vl_kmeans_set_centers(k.km, C.data(), k.dim, K); } c.nontrivial();
  std::vector<char> junk(c.i(1, 400), 0x7f); { void *p = malloc(sizeof(VlKMeans)); memset(p, 0xff, sizeof(VlKMeans)); free(p); }
  VlKMeans *m = vl_kmeans_new_copy(k.km);
#define SAME(f) VT_ASSERT(c, vl_kmeans_get_##f(m) == vl_kmeans_get_##f(k.km), "the copy differs in " #f)
  SAME(data_type); SAME(distance); SAME(algorithm); SAME(initialization); SAME(num_repetitions); SAME(dimension); SAME(num_centers); SAME(max_num_iterations); SAME(min_energy_variation); SAME(max_num_comparisons); SAME(num_trees); SAME(energy); SAME(verbosity);
  const T *pc = (const T *)vl_kmeans_get_centers(k.km), *pm = (const T *)vl_kmeans_get_centers(m); size_t N = vl_kmeans_get_num_centers(k.km) * vl_kmeans_get_dimension(k.km); VT_ASSERT(c, (pc == NULL) == (pm == NULL) && (!pc || (pc != pm && !memcmp(pc, pm, N * sizeof(T)))), "the copy has other centres");
  size_t K2 = std::min<size_t>(k.n, c.i(1, 5)); uint32_t sd = c.i(0, 99); VlKMeans *a = c.b() ? m : k.km, *b = a == m ? k.km : m;
  vl_rand_seed(vl_get_rand(), sd); double e1 = vl_kmeans_cluster(a, k.X.data(), k.dim, k.n, K2); std::vector<T> A((const T *)vl_kmeans_get_centers(a), (const T *)vl_kmeans_get_centers(a) + K2 * k.dim); if (c.b()) { vl_kmeans_delete(a); if (a == k.km) k.km = NULL; a = NULL; }
  vl_rand_seed(vl_get_rand(), sd); double e2 = vl_kmeans_cluster(b, k.X.data(), k.dim, k.n, K2); const T *pb = (const T *)vl_kmeans_get_centers(b); VT_ASSERT(c, e1 == e2 && !memcmp(pb, A.data(), A.size() * sizeof(T)), "copy and original cluster differently from the same random state: energies %.9g and %.9g", e1, e2);
  if (b == m || (a == m)) { if (k.km != m && !(a == NULL && b != m)) vl_kmeans_delete(m); }
}
VT_CHECK(copies, 20000, 400000, "always") { if (c.b()) copies<float>(c); else copies<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
