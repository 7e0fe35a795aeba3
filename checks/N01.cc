// N01: vector comparisons equal their formulas (all dims, alignments, precisions, SIMD on/off); all-pairs is consistent.
// VT-LDFLAGS: -Wl,--wrap=vl_cpu_has_avx
#include "vt.h"
#include "vl_all.h"
#include "avx.h"
typedef long double ld;
template <class T> struct F;
template <> struct F<float> {
  typedef VlFloatVectorComparisonFunction C; typedef VlFloatVector3ComparisonFunction C3;
  static C get(VlVectorComparisonType t) { return vl_get_vector_comparison_function_f(t); }
  static C3 get3(VlVectorComparisonType t) { return vl_get_vector_3_comparison_function_f(t); }
  static void all(float *r, vl_size d, const float *X, vl_size n, const float *Y, vl_size m, C f) { vl_eval_vector_comparison_on_all_pairs_f(r, d, X, n, Y, m, f); }
};
template <> struct F<double> {
  typedef VlDoubleVectorComparisonFunction C; typedef VlDoubleVector3ComparisonFunction C3;
  static C get(VlVectorComparisonType t) { return vl_get_vector_comparison_function_d(t); }
  static C3 get3(VlVectorComparisonType t) { return vl_get_vector_3_comparison_function_d(t); }
  static void all(double *r, vl_size d, const double *X, vl_size n, const double *Y, vl_size m, C f) { vl_eval_vector_comparison_on_all_pairs_d(r, d, X, n, Y, m, f); }
};
static const VlVectorComparisonType types[] = {VlDistanceL1, VlDistanceL2, VlDistanceChi2, VlDistanceHellinger, VlDistanceJS, VlKernelL1, VlKernelL2, VlKernelChi2, VlKernelHellinger, VlKernelJS};
static const char *names[] = {"l1", "l2", "chi2", "hell", "js", "kl1", "kl2", "kchi2", "khell", "kjs"};
static bool needs_nonneg(int k) { return k == 3 || k == 4 || k == 8 || k == 9; }
// value and accumulated magnitude of terms
template <class T> static void ref(int k, size_t n, const T *x, const T *y, ld &v, ld &mag) {
  v = mag = 0;
  for (size_t i = 0; i < n; ++i) {
    ld a = x[i], b = y[i], t = 0, m = 0;
    switch (k) {
      case 0: t = fabsl(a - b); m = t; break;
      case 1: t = (a - b) * (a - b); m = t; break;
      case 2: t = (a + b) != 0 ? (a - b) * (a - b) / (a + b) : 0; m = fabsl(t); break;
      case 3: t = (sqrtl(a) - sqrtl(b)) * (sqrtl(a) - sqrtl(b)); m = 2 * (a + b); break;
      case 4: if (a) { ld q = a * log2l(1 + b / a); t += a - q; m += a + q; } if (b) { ld q = b * log2l(1 + a / b); t += b - q; m += b + q; } m *= 4; break;
      case 5: t = (a * b > 0) ? std::min(fabsl(a), fabsl(b)) : 0; m = fabsl(a) + fabsl(b); break;
      case 6: t = a * b; m = fabsl(t); break;
      case 7: t = (a + b) != 0 ? 2 * a * b / (a + b) : 0; m = fabsl(t); break;
      case 8: t = sqrtl(a * b); m = t; break;
      case 9: if (a) t += a * log2l(1 + b / a); if (b) t += b * log2l(1 + a / b); t /= 2; m = 4 * (t + a + b); break;
    }
    v += t; mag += m;
  }
}
// a buffer whose last element ends exactly at the end of the allocation
template <class T> struct Buf {
  char *raw; T *p; size_t n; std::vector<T> copy;
  Buf(size_t n_, int off) : n(n_) { void *q = nullptr; if (posix_memalign(&q, 64, n * sizeof(T) + off * sizeof(T) + (n + off ? 0 : 1))) abort(); raw = (char *)q; p = (T *)raw + off; }
  ~Buf() { free(raw); }
  void snap() { copy.assign(p, p + n); }
  bool same() const { return n == 0 || !memcmp(copy.data(), p, n * sizeof(T)); }
};
template <class T> static void fill(vt::Ctx &c, vt::Stream &s, T *p, size_t n, int cls) {
  for (size_t i = 0; i < n; ++i) {
    double v = 0;
    switch (cls) {
      case 0: v = s.real(0, 1); break;
      case 1: v = s.below(3) ? (double)s.below(4) : 0; break;
      case 2: v = s.real(-1, 1); break;
      case 3: v = std::exp(s.real(-9, 9)); break;
      case 4: v = (double)s.range(-3, 3); break;
      case 5: v = s.below(5) ? 0 : s.real(0, 100); break;
    }
    p[i] = (T)v;
  }
}
template <class T> static void single(vt::Ctx &c) {
  int k = c.i(0, 9); bool simd = simd_mode(c);
  size_t n = c.chance(1, 20) ? c.i(0, 3000) : c.i(0, 70);
  int cls = c.i(0, 5); if (needs_nonneg(k) && (cls == 2 || cls == 4)) cls = cls == 2 ? 0 : 1;
  int ox = c.i(0, 8), oy = c.i(0, 8);
  vt::Stream s = c.stream();
  Buf<T> X(n, ox), Y(n, oy); fill(c, s, X.p, n, cls); fill(c, s, Y.p, n, cls);
  int rel = c.i(0, 4);
  if (rel == 1) for (size_t i = 0; i < n; ++i) Y.p[i] = X.p[i];
  if (rel == 2 && !needs_nonneg(k)) for (size_t i = 0; i < n; ++i) if (s.below(2)) Y.p[i] = -X.p[i];
  if (rel == 3 && n) for (size_t i = 0; i < n; ++i) if (i != n - 1) X.p[i] = Y.p[i] = 0;
  X.snap(); Y.snap();
  c.note("%s %s n=%zu class=%d rel=%d align=%d,%d simd=%d", names[k], sizeof(T) == 4 ? "float" : "double", n, cls, rel, ox, oy, simd);
  typename F<T>::C f = F<T>::get(types[k]);
  T got = f(n, X.p, Y.p);
  ld v, mag; ref(k, n, X.p, Y.p, v, mag);
  ld eps = std::numeric_limits<T>::epsilon(), tol = (n + 8) * eps * mag + 1e-30L;
  if (n > 8) tol = std::min(tol, (ld)(16 + 4 * sqrtl(n)) * eps * mag + 1e-30L);
  if (n >= 1 && v != 0) c.nontrivial();
  c.label("%s simd=%d", names[k], simd); c.label("n mod 8 = %d", (int)(n % 8)); if (ox % 4 == 0 && oy % 4 == 0) c.label("aligned");
  VT_ASSERT(c, fabsl((ld)got - v) <= tol, "%s: got %.10g, formula %.10Lg (tolerance %.3Lg)", names[k], (double)got, v, tol);
  VT_ASSERT(c, X.same() && Y.same(), "%s modified its input", names[k]);
}
VT_CHECK(pair_value, 400000, 3000000, "dimension >= 1 and non-zero exact value") { if (c.b()) single<float>(c); else single<double>(c); }

template <class T> static void maha(vt::Ctx &c) {
  bool simd = simd_mode(c); size_t n = c.i(0, 70); int o[3]; for (int k = 0; k < 3; ++k) o[k] = c.i(0, 8);
  vt::Stream s = c.stream(); Buf<T> X(n, o[0]), M(n, o[1]), S(n, o[2]);
  int cls = c.i(0, 5); fill(c, s, X.p, n, cls); fill(c, s, M.p, n, cls); fill(c, s, S.p, n, c.pick({0, 1, 3})); X.snap(); M.snap(); S.snap();
  T got = F<T>::get3(VlDistanceMahalanobis)(n, X.p, M.p, S.p);
  ld v = 0; for (size_t i = 0; i < n; ++i) v += ((ld)X.p[i] - M.p[i]) * ((ld)X.p[i] - M.p[i]) * S.p[i];
  ld tol = (n + 8) * (ld)std::numeric_limits<T>::epsilon() * v + 1e-30L;
  if (v != 0) c.nontrivial(); c.label("simd=%d", simd);
  c.note("mahalanobis n=%zu class=%d align=%d,%d,%d simd=%d", n, cls, o[0], o[1], o[2], simd);
  VT_ASSERT(c, fabsl((ld)got - v) <= tol, "mahalanobis: got %.10g, formula %.10Lg", (double)got, v);
  VT_ASSERT(c, X.same() && M.same() && S.same(), "mahalanobis modified its input");
}
VT_CHECK(mahalanobis, 100000, 800000, "non-zero exact value") { if (c.b()) maha<float>(c); else maha<double>(c); }

template <class T> static T sym_custom(vl_size d, const T *X, const T *Y) { double a = 0, b = 0; for (vl_size i = 0; i < d; ++i) { a += (i + 1) * (double)X[i]; b += (i + 1) * (double)Y[i]; } return (T)(a * b + 3 * (a + b)); }
template <class T> static void pairs(vt::Ctx &c) {
  bool simd = simd_mode(c);
  int k = c.i(0, 10); size_t d = c.i(1, 19), nx = c.small(0, 14), ny = c.small(0, 14); bool self = c.b();
  vt::Stream s = c.stream(); Buf<T> X(d * nx, c.i(0, 4)), Y(d * ny, c.i(0, 4)); int cls = c.pick({0, 1, 3});
  fill(c, s, X.p, d * nx, cls); fill(c, s, Y.p, d * ny, cls); X.snap(); Y.snap();
  typename F<T>::C f = k == 10 ? sym_custom<T> : F<T>::get(types[k]);
  size_t m = self ? nx : ny; Buf<T> R(nx * m, 0); T sent = (T)-12345.25; for (size_t i = 0; i < nx * m; ++i) R.p[i] = sent;
  F<T>::all(R.p, d, X.p, nx, self ? nullptr : Y.p, self ? 0 : ny, f);
  c.note("all pairs %s d=%zu nx=%zu ny=%zu self=%d", k == 10 ? "custom" : names[k], d, nx, ny, self);
  if (nx >= 2 && m >= 2) c.nontrivial(); c.label(self ? "self" : "cross");
  const T *Q = self ? X.p : Y.p;
  for (size_t j = 0; j < m; ++j) for (size_t i = 0; i < nx; ++i) {
    T a = f(d, X.p + i * d, Q + j * d), b = f(d, Q + j * d, X.p + i * d), g = R.p[i + j * nx];
    VT_ASSERT(c, !memcmp(&g, &a, sizeof(T)) || (self && !memcmp(&g, &b, sizeof(T))) || fabsl((ld)g - a) <= 4 * std::numeric_limits<T>::epsilon() * fabsl((ld)a),
              "all-pairs entry (%zu,%zu) is %.10g, the individual comparison gives %.10g", i, j, (double)g, (double)a);
  }
  VT_ASSERT(c, X.same() && Y.same(), "inputs modified");
}
VT_CHECK(all_pairs, 100000, 600000, "at least two vectors on both sides") { if (c.b()) pairs<float>(c); else pairs<double>(c); }
int main(int a, char **b) { return vt::vt_main(a, b); }
