// C02: budgeted kd-forest queries: budget, true distances, monotonicity in the budget, batch = single = independent searchers.
// VT-LDFLAGS: -Wl,--wrap=vl_cpu_has_avx
#include "kd.h"
template <class T> static void approx(vt::Ctx &c) {
  KD<T> k(c, false); if (k.n > 8) c.nontrivial(); std::vector<VlKDForestSearcher *> se(c.i(1, 3)); for (auto &s : se) s = vl_kdforest_new_searcher(k.f); int nq = c.small(1, 4);
  for (int qi = 0; qi < nq; ++qi) {
    std::vector<T> q = k.query(c); size_t nn = c.small(1, 6); std::vector<VlKDForestNeighbor> prev; std::vector<size_t> budgets; int nb_ = c.i(2, 5); for (int i = 0; i < nb_; ++i) budgets.push_back(c.small(1, (int)std::min<size_t>(k.n, 100) + 5)); budgets.push_back(k.n); if (c.b()) budgets.push_back(k.n + 7); std::sort(budgets.begin(), budgets.end());
    for (size_t bi = 0; bi < budgets.size(); ++bi) {
      size_t B = budgets[bi]; vl_kdforest_set_max_num_comparisons(k.f, B); VT_ASSERT(c, vl_kdforest_get_max_num_comparisons(k.f) == B, "budget not stored"); std::vector<VlKDForestNeighbor> nb(nn); size_t cmp = vl_kdforestsearcher_query(c.pick(se), nb.data(), nn, q.data());
      VT_ASSERT(c, cmp <= B, "%zu comparisons with a budget of %zu", cmp, B); size_t v = k.check_list(c, q.data(), nb.data(), nn); VT_ASSERT(c, v <= cmp && v == std::min(nn, cmp), "%zu neighbours from %zu comparisons", v, cmp);
      VT_ASSERT(c, cmp >= std::min(B, std::min(nn, k.n)), "search stopped after %zu of %zu comparisons without enough neighbours", cmp, B);
      for (size_t j = 0; j < nn && bi; ++j) { bool pv = prev[j].index != (vl_uindex)-1, nv = nb[j].index != (vl_uindex)-1; VT_ASSERT(c, !pv || (nv && nb[j].distance <= prev[j].distance), "raising the budget from %zu to %zu made neighbour %zu worse (%g -> %g)", budgets[bi - 1], B, j, prev[j].distance, nb[j].distance); }
      if (B >= k.n) { std::vector<ld> d(k.n); for (size_t i = 0; i < k.n; ++i) d[i] = k.dist(q.data(), i); std::sort(d.begin(), d.end()); VT_ASSERT(c, v == std::min(nn, k.n), "budget covers all data but %zu neighbours found", v); for (size_t j = 0; j < v; ++j) VT_ASSERT(c, fabsl((ld)nb[j].distance - d[j]) <= k.tol(d[j]), "budget %zu covers all %zu points but neighbour %zu is at %.10g instead of %.10Lg", B, k.n, j, nb[j].distance, d[j]); }
      prev = nb; } }
  for (auto s : se) if (c.b()) vl_kdforestsearcher_delete(s);
}
VT_CHECK(budgeted_query, 100000, 2500000, "more than eight points") { if (c.b()) approx<float>(c); else approx<double>(c); }
template <class T> static void batch(vt::Ctx &c) {
  KD<T> k(c, false); if (k.n > 8) c.nontrivial(); size_t nq = c.small(0, 6), nn = c.small(1, 6), B = c.b() ? 0 : c.small(1, (int)std::min<size_t>(k.n, 60)); vl_kdforest_set_max_num_comparisons(k.f, B); std::vector<VlKDForestSearcher *> se(c.i(0, 4)); for (auto &s : se) s = vl_kdforest_new_searcher(k.f);
  for (size_t i = 0; i < se.size(); ++i) VT_ASSERT(c, vl_kdforest_get_searcher(k.f, i) == se[i], "searcher %zu not listed", i);
  for (size_t i = 0; i < se.size();) if (c.chance(1, 3)) { vl_kdforestsearcher_delete(se[i]); se.erase(se.begin() + i); } else ++i;
  for (size_t i = 0; i < se.size(); ++i) VT_ASSERT(c, vl_kdforest_get_searcher(k.f, i) == se[i], "searcher %zu not listed after deletions", i); VT_ASSERT(c, vl_kdforest_get_searcher(k.f, se.size()) == NULL, "a deleted searcher is still listed");
  std::vector<T> Q; for (size_t i = 0; i < nq; ++i) { auto q = k.query(c); Q.insert(Q.end(), q.begin(), q.end()); }
  vl_uint32 *ix = (vl_uint32 *)malloc(4 * nq * nn + 1); T *D = c.chance(1, 5) ? NULL : (T *)malloc(sizeof(T) * nq * nn + 1); size_t total = vl_kdforest_query_with_array(k.f, ix, nn, nq, D, Q.data()); std::vector<vl_uint32> IX(ix, ix + nq * nn); std::vector<T> DD; if (D) DD.assign(D, D + nq * nn); free(ix); bool haveD = D != NULL; free(D);
  size_t sum = 0; for (size_t i = 0; i < nq; ++i) { std::vector<VlKDForestNeighbor> nb(nn); sum += se.size() && c.b() ? vl_kdforestsearcher_query(c.pick(se), nb.data(), nn, &Q[i * k.dim]) : vl_kdforest_query(k.f, nb.data(), nn, &Q[i * k.dim]);
    for (size_t j = 0; j < nn; ++j) { VT_ASSERT(c, IX[i * nn + j] == (vl_uint32)nb[j].index, "batch query %zu neighbour %zu is %u, single query gives %u", i, j, IX[i * nn + j], (vl_uint32)nb[j].index); if (haveD) VT_ASSERT(c, DD[i * nn + j] == (T)nb[j].distance || (DD[i * nn + j] != DD[i * nn + j] && nb[j].distance != nb[j].distance), "batch distance %g, single query gives %g", (double)DD[i * nn + j], nb[j].distance); } }
  VT_ASSERT(c, total == sum, "batch reports %zu comparisons, single queries %zu", total, sum);
  for (size_t i = 0; i < se.size(); ++i) VT_ASSERT(c, vl_kdforest_get_searcher(k.f, i) == se[i], "searchers were disturbed by queries");
}
VT_CHECK(batch_query, 100000, 2500000, "more than eight points") { if (c.b()) batch<float>(c); else batch<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
