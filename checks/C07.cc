// C07: VLAD encodings against the definition in long double, for every flag combination.
#include "vt.h"
#include "vl_all.h"
typedef long double ld;
template <class T> static void vlad(vt::Ctx &c) {
  const ld E = std::numeric_limits<T>::epsilon(); vl_type ty = sizeof(T) == 4 ? VL_TYPE_FLOAT : VL_TYPE_DOUBLE;
  size_t D = c.small(1, 20), K = c.small(1, 8), n = c.small(0, 40); int fl = (int)c.i(0, 15), as = (int)c.i(0, 3), cls = (int)c.i(0, 3); vt::Stream s = c.stream(); std::vector<T> X(n * D), M(K * D), A(n * K, 0);
  for (auto &v : M) v = (T)(cls == 3 ? s.range(-3, 3) : s.gauss() * 2); for (auto &v : X) v = (T)(cls == 0 ? s.gauss() : cls == 1 ? 100 + s.gauss() : cls == 2 ? 0 : s.range(-3, 3));
  for (size_t i = 0; i < n; ++i) { if (as == 0) A[i * K + s.below(K)] = 1; else if (as == 1 || as == 2) { double t = 0; std::vector<double> w(K); for (auto &v : w) { v = as == 2 && s.below(2) ? 0 : s.uni(); t += v; } if (t == 0) w[0] = t = 1; for (size_t k = 0; k < K; ++k) A[i * K + k] = (T)(w[k] / t); } else A[i * K + s.below((K + 1) / 2)] = 1; }
  if (cls == 3 && n && as == 0) for (size_t i = 0; i < n; ++i) if (s.below(3) == 0) { size_t k = 0; while (!A[i * K + k]) ++k; for (size_t d = 0; d < D; ++d) X[i * D + d] = M[k * D + d]; }
  c.note("%s D=%zu K=%zu n=%zu flags %d assign %d class %d\n", sizeof(T) == 4 ? "float" : "double", D, K, n, fl, as, cls); c.label("flags %d", fl);
  std::vector<ld> e(K * D, 0), t(K * D, 0); bool clear = true;
  for (size_t k = 0; k < K; ++k) { ld mass = 0; for (size_t i = 0; i < n; ++i) mass += A[i * K + k]; ld *ek = &e[k * D], *tk = &t[k * D];
    for (size_t d = 0; d < D; ++d) { ld sx = 0, ax = 0; for (size_t i = 0; i < n; ++i) { ld q = A[i * K + k]; sx += q * X[i * D + d]; ax += q * fabsl((ld)X[i * D + d]); } ld m = M[k * D + d]; if (mass > 0) { ek[d] = sx - mass * m; tk[d] = (n + 6) * E * ax + 4 * E * mass * fabsl(m); if (fl & VL_VLAD_FLAG_NORMALIZE_MASS) { ek[d] /= mass; tk[d] /= mass; } } 
      if (cls == 3 && as != 1 && as != 2 && !(fl & VL_VLAD_FLAG_NORMALIZE_MASS)) tk[d] = 0; // small integers: exact
      if (fl & VL_VLAD_FLAG_SQUARE_ROOT) { ld a = fabsl(ek[d]), r = sqrtl(a), u = tk[d]; tk[d] = a == 0 && u == 0 ? 0 : std::max(sqrtl(a + u) - r, a > u ? r - sqrtl(a - u) : r + sqrtl(u)) + 2 * E * r; ek[d] = ek[d] < 0 ? -r : r; } }
    if (fl & VL_VLAD_FLAG_NORMALIZE_COMPONENTS) { ld N = 0, TT = 0; for (size_t d = 0; d < D; ++d) { N += ek[d] * ek[d]; TT += tk[d] * tk[d]; } N = sqrtl(N); TT = sqrtl(TT) + (D + 4) * E * N; if (N == 0 && TT == 0) continue; if (TT > 0.2L * N || N < 1e-10L) { clear = false; continue; } for (size_t d = 0; d < D; ++d) { ld v = ek[d] / N; tk[d] = 1.3L * (tk[d] + fabsl(v) * TT) / N + 4 * E * fabsl(v); ek[d] = v; } } }
  if (!(fl & VL_VLAD_FLAG_UNNORMALIZED)) { ld N = 0, TT = 0; for (size_t j = 0; j < K * D; ++j) { N += e[j] * e[j]; TT += t[j] * t[j]; } N = sqrtl(N); TT = sqrtl(TT) + (K * D + 4) * E * N; if (N || TT) { if (TT > 0.2L * N || N < 1e-10L) clear = false; else for (size_t j = 0; j < K * D; ++j) { ld v = e[j] / N; t[j] = 1.3L * (t[j] + fabsl(v) * TT) / N + 4 * E * fabsl(v); e[j] = v; } } }
  T *o = (T *)malloc(sizeof(T) * K * D); struct F { T *e; ~F() { free(e); } } fr{o}; for (size_t j = 0; j < K * D; ++j) o[j] = (T)NAN; vl_vlad_encode(o, ty, M.data(), D, K, X.data(), n, A.data(), fl);
  for (size_t j = 0; j < K * D; ++j) VT_ASSERT(c, std::isfinite(o[j]), "component %zu is %g", j, (double)o[j]);
  if (!clear) c.discard(); if (K > 1 && n > 1) c.nontrivial();
  for (size_t j = 0; j < K * D; ++j) VT_ASSERT(c, fabsl(o[j] - e[j]) <= t[j] + 1e-30L, "flags %d component %zu (cluster %zu) is %.9g, reference %.9Lg (+- %.2Lg)", fl, j, j / D, (double)o[j], e[j], t[j]);
  // vectors may come in any order
  if (n > 1) { std::vector<T> X2(n * D), A2(n * K), o2(K * D); for (size_t i = 0; i < n; ++i) { memcpy(&X2[i * D], &X[(n - 1 - i) * D], D * sizeof(T)); memcpy(&A2[i * K], &A[(n - 1 - i) * K], K * sizeof(T)); } vl_vlad_encode(o2.data(), ty, M.data(), D, K, X2.data(), n, A2.data(), fl); for (size_t j = 0; j < K * D; ++j) VT_ASSERT(c, fabsl((ld)o[j] - o2[j]) <= 2 * t[j] + 1e-30L, "component %zu depends on the order: %.9g %.9g", j, (double)o[j], (double)o2[j]); }
}
VT_CHECK(closed_form, 100000, 3000000, "at least two clusters and two vectors") { if (c.b()) vlad<float>(c); else vlad<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
