// C01: exact kd-forest queries against exhaustive search.
// VT-LDFLAGS: -Wl,--wrap=vl_cpu_has_avx
#include "kd.h"
template <class T> static void exact(vt::Ctx &c) {
  KD<T> k(c, true); int nq = c.small(1, 5); bool searcher = c.b(); VlKDForestSearcher *s = searcher ? vl_kdforest_new_searcher(k.f) : NULL; if (k.n > 4) c.nontrivial();
  VT_ASSERT(c, vl_kdforest_get_max_num_comparisons(k.f) == 0, "the default search is not exact");
  for (int qi = 0; qi < nq; ++qi) {
    std::vector<T> q = k.query(c); size_t nn = c.chance(1, 4) ? c.i(1, std::min<size_t>(k.n, 80) + 3) : c.small(1, 6); VlKDForestNeighbor *nb = (VlKDForestNeighbor *)malloc(sizeof(*nb) * nn); memset(nb, 0xab, sizeof(*nb) * nn);
    std::unique_ptr<VlKDForestNeighbor, void (*)(void *)> hold(nb, free); T *qq = (T *)malloc(sizeof(T) * k.dim); std::unique_ptr<T, void (*)(void *)> holdq(qq, free); memcpy(qq, q.data(), sizeof(T) * k.dim);
    size_t cmp = searcher ? vl_kdforestsearcher_query(s, nb, nn, qq) : vl_kdforest_query(k.f, nb, nn, qq);
    std::vector<ld> d(k.n); for (size_t i = 0; i < k.n; ++i) d[i] = k.dist(qq, i); std::sort(d.begin(), d.end());
    size_t v = k.check_list(c, qq, nb, nn); VT_ASSERT(c, v == std::min(nn, k.n), "%zu neighbours returned, %zu exist and %zu were requested", v, k.n, nn);
    for (size_t j = 0; j < v; ++j) VT_ASSERT(c, fabsl((ld)nb[j].distance - d[j]) <= k.tol(d[j]), "neighbour %zu of query %d is at %.10g, exhaustive search finds %.10Lg", j, qi, nb[j].distance, d[j]);
    VT_ASSERT(c, cmp <= k.n && cmp >= v, "%zu comparisons reported for %zu points", cmp, k.n);
  }
}
VT_CHECK(exact_query, 150000, 4000000, "more than four points") { if (c.b()) exact<float>(c); else exact<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
