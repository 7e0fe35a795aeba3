// C04: integer k-means (Lloyd, Elkan) and hierarchical k-means against exhaustive integer references.
#include "vt.h"
#include "vl_all.h"
struct D8 { size_t M, N; std::vector<vl_uint8> X; };
static D8 gen(vt::Ctx &c, size_t nmax = 60) { D8 d; d.M = c.small(1, 12); d.N = c.small(1, (int)nmax); d.X.resize(d.M * d.N); vt::Stream s = c.stream(); int cls = c.i(0, 4); size_t B = 1 + s.below(6); std::vector<int> ctr(B * d.M); for (auto &v : ctr) v = (int)s.below(256);
  for (size_t i = 0; i < d.N; ++i) { size_t b = s.below(B); for (size_t k = 0; k < d.M; ++k) { int v; switch (cls) { case 0: v = (int)s.below(256); break; case 1: v = (int)s.below(4); break; case 2: v = ctr[b * d.M + k] + (int)s.range(-10, 10); break; case 3: v = s.below(2) ? 255 : 0; break; default: v = 250 + (int)s.below(6); } d.X[i * d.M + k] = (vl_uint8)std::max(0, std::min(255, v)); } }
  c.note("M=%zu N=%zu class %d\n", d.M, d.N, cls); return d; }
static int64_t dist(const vl_uint8 *x, const vl_ikmacc_t *c, size_t M) { int64_t s = 0; for (size_t i = 0; i < M; ++i) { int64_t e = (int64_t)x[i] - c[i]; s += e * e; } return s; }
static int64_t nearest(const vl_uint8 *x, const vl_ikmacc_t *C, size_t M, size_t K, size_t *a = NULL, bool *tie = NULL) { int64_t b = INT64_MAX; for (size_t k = 0; k < K; ++k) { int64_t d = dist(x, C + k * M, M); if (d < b) { b = d; if (a) *a = k; if (tie) *tie = false; } else if (d == b && tie) *tie = true; } return b; }
static std::vector<vl_ikmacc_t> C(const VlIKMFilt *f) { const vl_ikmacc_t *p = vl_ikm_get_centers(f); return std::vector<vl_ikmacc_t>(p, p + vl_ikm_get_K(f) * vl_ikm_get_ndims(f)); }
static void check_push(vt::Ctx &c, VlIKMFilt *f, const D8 &d) {
  size_t K = vl_ikm_get_K(f), M = vl_ikm_get_ndims(f), N = d.X.size() / M; std::vector<vl_ikmacc_t> ctr = C(f); vl_uint32 *as = (vl_uint32 *)malloc(4 * N + 1); vl_ikm_push(f, as, d.X.data(), N);
  for (size_t i = 0; i < N; ++i) { const vl_uint8 *x = &d.X[i * M]; VT_ASSERT(c, as[i] < K, "point %zu projected on centre %u of %zu", i, as[i], K); int64_t b = nearest(x, ctr.data(), M, K), g = dist(x, &ctr[as[i] * M], M); VT_ASSERT(c, g == b, "point %zu projected on centre %u at squared distance %lld, the nearest is at %lld", i, as[i], (long long)g, (long long)b); vl_uint32 one = vl_ikm_push_one(ctr.data(), x, M, K); VT_ASSERT(c, one == as[i], "point %zu: batch projection gives %u, single projection %u", i, as[i], one); }
  VT_ASSERT(c, C(f) == ctr, "projection changed the centres"); free(as); }
static VlIKMFilt *mk(vt::Ctx &c, bool &elkan) { elkan = c.b(); VlIKMFilt *f = vl_ikm_new(elkan ? VL_IKM_ELKAN : VL_IKM_LLOYD); c.note("%s\n", elkan ? "Elkan" : "Lloyd"); return f; }
static std::vector<vl_ikmacc_t> user_centers(vt::Ctx &c, const D8 &d, size_t K) { vt::Stream s = c.stream(); int m = c.i(0, 3); std::vector<vl_ikmacc_t> r(K * d.M); for (size_t k = 0; k < K; ++k) { size_t i = s.below(d.N); for (size_t j = 0; j < d.M; ++j) r[k * d.M + j] = m == 0 ? (int)d.X[i * d.M + j] : m == 1 ? (int)s.below(256) : m == 2 ? d.X[i * d.M + j] + (int)s.range(-20, 20) : (int)s.range(-3000, 3000); } return r; }

VT_CHECK(projection, 120000, 3000000, "at least two centres") {
  D8 d = gen(c); bool e; VlIKMFilt *f = mk(c, e); size_t K = c.small(1, 16); if (K > 1) c.nontrivial(); auto ctr = user_centers(c, d, K); if (c.chance(1, 4)) { auto o = user_centers(c, d, 3); vl_ikm_init(f, o.data(), d.M, 3); } vl_ikm_init(f, ctr.data(), d.M, K);
  VT_ASSERT(c, vl_ikm_get_K(f) == K && vl_ikm_get_ndims(f) == d.M && C(f) == ctr, "initial centres not stored"); check_push(c, f, d); D8 q = d; vt::Stream s = c.stream(); for (auto &v : q.X) v = (vl_uint8)s.below(256); check_push(c, f, q); vl_ikm_delete(f); }

VT_CHECK(initialisation, 60000, 1500000, "at least two centres") {
  D8 d = gen(c); bool e; VlIKMFilt *f = mk(c, e); vl_rand_seed(vl_get_rand(), c.i(0, 1000)); size_t K = c.small(1, (int)std::min<size_t>(d.N, 12)); if (K > 1) c.nontrivial();
  if (c.chance(1, 4)) { vl_ikm_init_rand(f, d.M, K); VT_ASSERT(c, vl_ikm_get_K(f) == K && vl_ikm_get_ndims(f) == d.M, "dimensions not stored"); check_push(c, f, d); }
  else { vl_ikm_init_rand_data(f, d.X.data(), d.M, d.N, K); auto ctr = C(f); VT_ASSERT(c, vl_ikm_get_K(f) == K && vl_ikm_get_ndims(f) == d.M, "dimensions not stored"); std::set<std::vector<vl_ikmacc_t>> pts, seen; for (size_t i = 0; i < d.N; ++i) pts.insert(std::vector<vl_ikmacc_t>(d.X.begin() + i * d.M, d.X.begin() + (i + 1) * d.M)); for (size_t k = 0; k < K; ++k) { std::vector<vl_ikmacc_t> p(ctr.begin() + k * d.M, ctr.begin() + (k + 1) * d.M); VT_ASSERT(c, pts.count(p), "initial centre %zu is not a data point", k); seen.insert(p); }
    if (pts.size() == d.N) VT_ASSERT(c, seen.size() == K, "distinct data but only %zu distinct initial centres of %zu", seen.size(), K); check_push(c, f, d); }
  vl_ikm_set_max_niters(f, c.i(0, 30)); vl_ikm_train(f, d.X.data(), d.N); check_push(c, f, d); vl_ikm_delete(f); }

VT_CHECK(one_update, 80000, 2000000, "at least two centres, an update that moves a centre and no tied assignment") {
  D8 d = gen(c); bool e; VlIKMFilt *f = mk(c, e); size_t K = c.small(1, 8); if (c.chance(1, 8)) K = d.N + c.i(1, 5); auto c0 = user_centers(c, d, K); vl_ikm_init(f, c0.data(), d.M, K); vl_ikm_set_max_niters(f, e ? 0 : 1); VT_ASSERT(c, vl_ikm_get_max_niters(f) == (vl_size)(e ? 0 : 1), "maximum not stored");
  std::vector<int64_t> sum(K * d.M, 0), cnt(K, 0); for (size_t i = 0; i < d.N; ++i) { size_t a = 0; bool t = false; nearest(&d.X[i * d.M], c0.data(), d.M, K, &a, &t); if (t) { vl_ikm_delete(f); c.discard(); } ++cnt[a]; for (size_t j = 0; j < d.M; ++j) sum[a * d.M + j] += d.X[i * d.M + j]; }
  { void *p = malloc(d.N * 4); memset(p, c.b() ? 0 : 0xff, d.N * 4); free(p); }
  int err = vl_ikm_train(f, d.X.data(), d.N); VT_ASSERT(c, err == 0, "training reports error %d", err); auto g = C(f); bool moved = false;
  for (size_t k = 0; k < K; ++k) for (size_t j = 0; j < d.M; ++j) { int64_t w = cnt[k] ? sum[k * d.M + j] / cnt[k] : c0[k * d.M + j]; if (w != c0[k * d.M + j]) moved = true; VT_ASSERT(c, g[k * d.M + j] == w, "K=%zu centre %zu (%lld points) coordinate %zu is %d, expected %lld", K, k, (long long)cnt[k], j, g[k * d.M + j], (long long)w); }
  if (K > 1 && moved) c.nontrivial(); check_push(c, f, d); vl_ikm_delete(f); }

VT_CHECK(convergence, 40000, 1000000, "at least two non-empty clusters at the end") {
  D8 d = gen(c, 120); bool e; VlIKMFilt *f = mk(c, e); size_t K = c.small(1, 10); auto c0 = user_centers(c, d, K); for (auto &v : c0) v = std::max(-300, std::min(600, (int)v)); vl_ikm_init(f, c0.data(), d.M, K); if (c.b()) vl_ikm_set_verbosity(f, -1); vl_ikm_set_max_niters(f, 400); vl_ikm_train(f, d.X.data(), d.N); auto g = C(f);
  std::vector<int64_t> sum(K * d.M, 0), cnt(K, 0); bool anytie = false; for (size_t i = 0; i < d.N; ++i) { size_t a = 0; bool t = false; nearest(&d.X[i * d.M], g.data(), d.M, K, &a, &t); anytie |= t; ++cnt[a]; for (size_t j = 0; j < d.M; ++j) sum[a * d.M + j] += d.X[i * d.M + j]; } size_t ne = 0; for (auto v : cnt) ne += v > 0; if (ne > 1) c.nontrivial();
  if (!anytie) for (size_t k = 0; k < K; ++k) if (cnt[k]) for (size_t j = 0; j < d.M; ++j) { int64_t w = sum[k * d.M + j] / cnt[k]; VT_ASSERT(c, g[k * d.M + j] == w, "after convergence centre %zu (%lld points) coordinate %zu is %d, the integer mean of its points is %lld", k, (long long)cnt[k], j, g[k * d.M + j], (long long)w); }
  check_push(c, f, d); vl_ikm_delete(f); }

// Lloyd's trajectory, iteration by iteration (ties to the lowest centre are only compared when none occurs)
VT_CHECK(lloyd_trajectory, 60000, 1500000, "assignments still change after the first update") {
  D8 d = gen(c, 80); VlIKMFilt *f = vl_ikm_new(VL_IKM_LLOYD); size_t K = c.small(1, 8), it = c.i(0, 12); auto g = user_centers(c, d, K); vl_ikm_init(f, g.data(), d.M, K); vl_ikm_set_max_niters(f, it); std::vector<size_t> as(d.N, (size_t)-1); bool tie = false; size_t changed = 0;
  for (size_t r = 0; r < it; ++r) { std::vector<int64_t> sum(K * d.M, 0), cnt(K, 0); bool ch = false; for (size_t i = 0; i < d.N; ++i) { size_t a = 0; bool t = false; nearest(&d.X[i * d.M], g.data(), d.M, K, &a, &t); tie |= t; if (as[i] != a) ch = true; as[i] = a; ++cnt[a]; for (size_t j = 0; j < d.M; ++j) sum[a * d.M + j] += d.X[i * d.M + j]; } if (!ch) break; if (r) ++changed; for (size_t k = 0; k < K; ++k) if (cnt[k]) for (size_t j = 0; j < d.M; ++j) g[k * d.M + j] = (vl_ikmacc_t)(sum[k * d.M + j] / cnt[k]); }
  if (tie) { vl_ikm_delete(f); c.discard(); } if (changed) c.nontrivial(); vl_ikm_train(f, d.X.data(), d.N); auto r = C(f); vl_ikm_delete(f); for (size_t j = 0; j < r.size(); ++j) VT_ASSERT(c, r[j] == g[j], "K=%zu after %zu iterations centre %zu coordinate %zu is %d, expected %d", K, it, j / d.M, j % d.M, r[j], g[j]); }

// ---------------------------------------------------------------- hierarchical
static void walk(vt::Ctx &c, const VlHIKMNode *n, size_t level, size_t depth, size_t K, size_t M, const D8 &d, const std::vector<size_t> &ids) {
  VT_ASSERT(c, n && n->filter, "missing node at level %zu", level); size_t k = vl_ikm_get_K(n->filter); VT_ASSERT(c, k == std::min(K, ids.size()), "node at level %zu with %zu training points has %zu children, expected %zu", level, ids.size(), k, std::min(K, ids.size())); VT_ASSERT(c, vl_ikm_get_ndims(n->filter) == M, "node dimension");
  VT_ASSERT(c, (n->children != NULL) == (level + 1 < depth) || k == 0, "node at level %zu of depth %zu %s children", level, depth, n->children ? "has" : "lacks"); if (level + 1 >= depth) return;
  std::vector<std::vector<size_t>> part(k); std::vector<vl_ikmacc_t> ctr = C(n->filter); for (auto i : ids) part[vl_ikm_push_one(ctr.data(), &d.X[i * M], M, k)].push_back(i); for (size_t j = 0; j < k; ++j) walk(c, n->children[j], level + 1, depth, K, M, d, part[j]); }
VT_CHECK(hierarchical, 40000, 1000000, "depth and branching of at least two") {
  D8 d = gen(c, 100); bool e = c.b(); VlHIKMTree *t = vl_hikm_new(e ? VL_IKM_ELKAN : VL_IKM_LLOYD); size_t K = c.i(1, 5), depth = c.i(1, 4), mi = c.i(1, 50); vl_rand_seed(vl_get_rand(), c.i(0, 1000)); vl_hikm_set_max_niters(t, mi); vl_hikm_init(t, d.M, K, depth); if (K > 1 && depth > 1) c.nontrivial(); c.note("K=%zu depth=%zu %s\n", K, depth, e ? "Elkan" : "Lloyd");
  VT_ASSERT(c, vl_hikm_get_ndims(t) == d.M && vl_hikm_get_K(t) == K && vl_hikm_get_depth(t) == depth && vl_hikm_get_max_niters(t) == mi, "tree parameters not stored"); vl_hikm_train(t, d.X.data(), d.N); if (c.chance(1, 5)) { vl_hikm_init(t, d.M, K, depth); vl_hikm_train(t, d.X.data(), d.N); }
  std::vector<size_t> all(d.N); for (size_t i = 0; i < d.N; ++i) all[i] = i; walk(c, vl_hikm_get_root(t), 0, depth, K, d.M, d, all);
  D8 q = d; if (c.b()) { vt::Stream s = c.stream(); for (auto &v : q.X) v = (vl_uint8)s.below(256); } vl_uint32 *as = (vl_uint32 *)malloc(4 * q.N * depth); memset(as, 0x5a, 4 * q.N * depth); vl_hikm_push(t, as, q.X.data(), q.N);
  for (size_t i = 0; i < q.N; ++i) { const VlHIKMNode *n = vl_hikm_get_root(t); for (size_t l = 0; l < depth; ++l) { size_t k = vl_ikm_get_K(n->filter); vl_uint32 a = as[i * depth + l]; if (k == 0) { for (size_t r = l; r < depth; ++r) VT_ASSERT(c, as[i * depth + r] == (vl_uint32)-1, "point %zu: level %zu below a node without centres reads %u", i, r, as[i * depth + r]); c.label("path ends in an empty node"); break; } VT_ASSERT(c, a < k, "point %zu level %zu: branch %u of %zu", i, l, a, k); auto ctr = C(n->filter); int64_t b = nearest(&q.X[i * d.M], ctr.data(), d.M, k), g = dist(&q.X[i * d.M], &ctr[a * d.M], d.M); VT_ASSERT(c, b == g, "point %zu level %zu: branch %u at squared distance %lld, the nearest is at %lld", i, l, a, (long long)g, (long long)b); if (l + 1 < depth) n = n->children[a]; } }
  free(as); vl_hikm_delete(t); }
int main(int a, char **b) { return vt::vt_main(a, b); }
