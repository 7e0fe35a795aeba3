// shared generators for the kd-forest checks
#pragma once
#include "avx.h"
#include "vt.h"
#include "vl_all.h"
typedef long double ld;
template <class T> struct KD {
  size_t dim, n; T *data; bool l1; size_t trees; bool mean; VlKDForest *f; double scale;
  VlVectorComparisonType dt() const { return l1 ? VlDistanceL1 : VlDistanceL2; }
  ld dist(const T *q, size_t i) const { ld a = 0; for (size_t d = 0; d < dim; ++d) { ld e = (ld)q[d] - (ld)data[i * dim + d]; a += l1 ? fabsl(e) : e * e; } return a; }
  ld tol(ld d) const { ld s = l1 ? scale : scale * scale; return (4.0L * dim + 32) * (ld)std::numeric_limits<T>::epsilon() * d + 1e-13L * s * dim + 1e-37L; }
  void gen_point(vt::Stream &s, int cls, T *p) { for (size_t d = 0; d < dim; ++d) { double v; switch (cls) { case 0: v = s.real(-1, 1); break; case 1: v = (double)s.range(0, 3); break; case 2: v = s.gauss() * (d == 0 ? 10 : 1); break; case 3: v = (double)s.below(2) * 100 + s.gauss() * 0.1; break; case 4: v = 1000 + s.uni(); break; case 5: v = 0.1 * (1 + (double)s.below(3)); break; default: v = d % 2 ? (double)s.range(0, 1) : 5.0; } p[d] = (T)v; } }
  KD(vt::Ctx &c, bool big) : data(NULL), f(NULL) {
    dim = c.small(1, 7); n = c.chance(1, big ? 60 : 400) ? c.i(1000, 1600) : c.b() ? c.i(2, 60) : c.small(1, 20); trees = c.small(1, 5); mean = c.b(); l1 = c.b(); int cls = c.i(0, 7); vt::Stream s = c.stream(); if (c.chance(1, 8)) dim = c.i(8, 20);
    data = (T *)malloc(sizeof(T) * n * dim); int k = cls == 7 ? 1 : cls; for (size_t i = 0; i < n; ++i) gen_point(s, k, data + i * dim); if (cls == 7) for (size_t i = 1; i < n; ++i) memcpy(data + i * dim, data + s.below(std::min<size_t>(i, 3)) * dim, sizeof(T) * dim); if (c.chance(1, 12)) { for (size_t i = 1; i < n; ++i) memcpy(data + i * dim, data, sizeof(T) * dim); }
    scale = 0; for (size_t i = 0; i < n * dim; ++i) scale = std::max(scale, fabs((double)data[i]));
    vl_rand_seed(vl_get_rand(), (vl_uint32)c.i(0, 1000)); simd_mode(c);
    f = vl_kdforest_new(sizeof(T) == 4 ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE, dim, trees, dt()); if (mean) vl_kdforest_set_thresholding_method(f, VL_KDTREE_MEAN); else if (c.b()) vl_kdforest_set_thresholding_method(f, VL_KDTREE_MEDIAN);
    c.note("%s dim=%zu n=%zu trees=%zu %s %s data class %d\n", sizeof(T) == 4 ? "float" : "double", dim, n, trees, mean ? "mean" : "median", l1 ? "L1" : "L2", cls); c.label("%s %s class %d", l1 ? "L1" : "L2", mean ? "mean" : "median", cls);
    vl_kdforest_build(f, n, data); gencls = k; }
  int gencls;
  std::vector<T> query(vt::Ctx &c) { std::vector<T> q(dim); vt::Stream s = c.stream(); switch (c.i(0, 3)) { case 0: gen_point(s, gencls, q.data()); break; case 1: { size_t i = s.below(n); memcpy(q.data(), data + i * dim, sizeof(T) * dim); break; } case 2: { size_t i = s.below(n); for (size_t d = 0; d < dim; ++d) q[d] = (T)(data[i * dim + d] + s.gauss() * 0.3); break; } default: for (auto &v : q) v = (T)(s.gauss() * 3 * (scale + 1)); } for (auto v : q) scale = std::max(scale, fabs((double)v)); return q; }
  ~KD() { if (f) vl_kdforest_delete(f); free(data); }
  // neighbours are distinct valid points with their true distance, in non-decreasing order, invalid ones at the end; returns number of valid ones
  size_t check_list(vt::Ctx &c, const T *q, const VlKDForestNeighbor *nb, size_t k) const {
    std::set<size_t> seen; size_t valid = 0; bool ended = false;
    for (size_t j = 0; j < k; ++j) {
      if (nb[j].index == (vl_uindex)-1) { VT_ASSERT(c, nb[j].distance != nb[j].distance, "missing neighbour %zu has distance %g instead of NaN", j, nb[j].distance); ended = true; continue; }
      VT_ASSERT(c, !ended, "a neighbour follows a missing one"); VT_ASSERT(c, nb[j].index < n, "neighbour index %zu out of range", (size_t)nb[j].index); VT_ASSERT(c, seen.insert(nb[j].index).second, "point %zu returned twice", (size_t)nb[j].index);
      ld d = dist(q, nb[j].index); VT_ASSERT(c, fabsl(d - nb[j].distance) <= tol(d), "neighbour %zu (point %zu) reported at distance %.10g, is at %.10Lg", j, (size_t)nb[j].index, nb[j].distance, d);
      if (j) VT_ASSERT(c, nb[j].distance >= nb[j - 1].distance, "distances not sorted: %g after %g", nb[j].distance, nb[j - 1].distance); ++valid; }
    return valid; }
};
