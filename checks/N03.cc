// N03: 2x2 SVD (general, triangular) and linear solvers.
#include "vt.h"
#include "vl_all.h"
typedef long double ld;
static double entry(vt::Ctx &c, int cls) {
  switch (cls) {
    case 0: return c.real(-1, 1);
    case 1: return (double)c.i(-3, 3);
    case 2: return c.pick({0.0, 1.0, -1.0, 2.0});
    case 3: return (c.b() ? -1 : 1) * std::exp(c.real(-40, 40));
    default: return c.chance(1, 3) ? 0.0 : (c.b() ? -1 : 1) * std::exp(c.real(-150, 150));
  }
}
static bool fin(std::initializer_list<double> v) { for (double x : v) if (!std::isfinite(x)) return false; return true; }
VT_CHECK(svd2, 400000, 10000000, "matrix not diagonal") {
  double M[4]; int cls = c.i(0, 4); for (double &x : M) x = entry(c, cls);
  int rel = c.i(0, 5);
  if (rel == 1) { double k = entry(c, 1); M[2] = k * M[0]; M[3] = k * M[1]; }          // rank one
  if (rel == 2) { M[2] = -M[1]; M[3] = M[0]; }                                          // similarity
  if (rel == 3) { M[0] = M[1] = 0; }
  if (rel == 4) { double s = std::exp(c.real(-60, 60)); M[2] *= s; M[3] *= s; }
  if (M[1] || M[2]) c.nontrivial(); c.label("class %d rel %d", cls, rel);
  c.note("M=[%.17g %.17g; %.17g %.17g]", M[0], M[2], M[1], M[3]);
  double S[4], U[4], V[4], S2[4]; vl_svd2(S, U, V, M); vl_svd2(S2, nullptr, nullptr, M);
  VT_ASSERT(c, fin({S[0], S[3], U[0], U[1], U[2], U[3], V[0], V[1], V[2], V[3]}), "svd2 returned a non-finite number (S=%g,%g U=%g,%g V=%g,%g)", S[0], S[3], U[0], U[1], V[0], V[1]);
  VT_ASSERT(c, S[1] == 0 && S[2] == 0, "S not diagonal");
  VT_ASSERT(c, !memcmp(S, S2, sizeof S), "S depends on whether U and V are requested");
  VT_ASSERT(c, fabs(S[0]) >= fabs(S[3]) * (1 - 1e-14), "singular values out of order: %g %g", S[0], S[3]);
  for (double *Q : {U, V}) VT_ASSERT(c, fabs(Q[0] * Q[0] + Q[1] * Q[1] - 1) < 1e-13 && fabs(Q[2] * Q[2] + Q[3] * Q[3] - 1) < 1e-13 && fabs(Q[0] * Q[2] + Q[1] * Q[3]) < 1e-13, "%s is not orthonormal: [%g %g; %g %g]", Q == U ? "U" : "V", Q[0], Q[2], Q[1], Q[3]);
  double mx = 0; for (double x : M) mx = std::max(mx, fabs(x));
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) {
    ld r = (ld)U[i] * S[0] * V[j] + (ld)U[i + 2] * S[3] * V[j + 2];
    VT_ASSERT(c, fabsl(r - M[i + 2 * j]) <= 1e-13L * mx, "(U S V')(%d,%d) = %.17Lg, M = %.17g; S=%g,%g", i, j, r, M[i + 2 * j], S[0], S[3]);
  }
}
VT_CHECK(dlasv2, 400000, 10000000, "off-diagonal entry not zero") {
  int cls = c.i(0, 4); double f = entry(c, cls), g = entry(c, cls), h = entry(c, cls);
  if (c.chance(1, 6)) g *= std::exp(c.real(30, 90)); if (c.chance(1, 8)) h = c.b() ? f : -f;
  if (g) c.nontrivial(); c.note("[%.17g %.17g; 0 %.17g]", f, g, h); c.label("class %d%s", cls, fabs(g) > 1e16 * fabs(f) ? " g dominant" : "");
  double smin = 7, smax = 7, sv = 7, cv = 7, su = 7, cu = 7; vl_lapack_dlasv2(&smin, &smax, &sv, &cv, &su, &cu, f, g, h);
  VT_ASSERT(c, fin({smin, smax, sv, cv, su, cu}), "non-finite result");
  VT_ASSERT(c, fabs(cu * cu + su * su - 1) < 1e-13 && fabs(cv * cv + sv * sv - 1) < 1e-13, "vectors not unit: cu=%g su=%g cv=%g sv=%g", cu, su, cv, sv);
  VT_ASSERT(c, fabs(smax) >= fabs(smin), "|smax| < |smin|: %g %g", smax, smin);
  ld mx = std::max(fabs(f), std::max(fabs(g), fabs(h)));
  // [cu su; -su cu] [f g; 0 h] [cv -sv; sv cv] = diag(smax, smin)
  ld a = cu * (ld)f, b = cu * (ld)g + su * (ld)h, p = -su * (ld)f, q = -su * (ld)g + cu * (ld)h;
  ld r00 = a * cv + b * sv, r01 = -a * sv + b * cv, r10 = p * cv + q * sv, r11 = -p * sv + q * cv;
  VT_ASSERT(c, fabsl(r00 - smax) <= 1e-13L * mx && fabsl(r01) <= 1e-13L * mx && fabsl(r10) <= 1e-13L * mx && fabsl(r11 - smin) <= 1e-13L * mx,
            "rotations do not diagonalise the input: [%.6Lg %.6Lg; %.6Lg %.6Lg], smax=%.6g smin=%.6g", r00, r01, r10, r11, smax, smin);
  ld det = (ld)f * h; VT_ASSERT(c, fabsl((ld)smax * smin - det) <= 1e-12L * fabsl(det) + 1e-290L, "smax*smin = %.17Lg, determinant %.17Lg", (ld)smax * smin, det);
}
VT_CHECK(linear_systems, 200000, 6000000, "system of at least 2 equations") {
  int n = c.pick({2, 3, 2, 3, 1, 4, 5, 7}); int nr = c.i(1, 4); int cls = c.i(0, 2), mode = c.i(0, 3);
  std::vector<double> A(n * n), B(n * nr);
  for (auto &x : A) x = cls == 0 ? c.real(-1, 1) : cls == 1 ? (double)c.i(-9, 9) : c.real(-1, 1) * std::pow(10.0, c.i(-2, 3));
  bool sing = false;
  if (mode == 1 && n >= 2 && cls < 2) { // dependent rows with exact integer arithmetic
    sing = true; for (auto &x : A) { x = std::round(x); if (n > 3) x = std::fmod(x, 2); } int r = c.i(0, n - 1);
    std::vector<int> w(n); for (int k = 0; k < n; ++k) w[k] = n > 3 ? c.i(-1, 1) : c.i(-2, 2);
    for (int j = 0; j < n; ++j) { double s = 0; for (int k = 0; k < n; ++k) if (k != r) s += w[k] * A[k + j * n]; A[r + j * n] = s; }
    if (c.b()) { std::vector<double> At(A); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i + j * n] = At[j + i * n]; }
  }
  if (mode == 2) { // permutation of a diagonally dominant matrix: pivoting needed
    std::vector<int> pm(n); for (int i = 0; i < n; ++i) pm[i] = i; for (int i = n - 1; i > 0; --i) std::swap(pm[i], pm[c.i(0, i)]);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i + j * n] = pm[i] == j ? c.pick({2.0, -3.0, 1.0}) * n : (c.chance(1, 2) ? 0 : c.real(-.5, .5)); }
  for (auto &x : B) x = c.chance(1, 6) ? 0 : c.real(-5, 5);
  if (n > 1) c.nontrivial(); c.label("n=%d mode=%d", n, mode);
  c.note("n=%d rhs=%d A=", n, nr); for (double x : A) c.note("%.17g", x);
  std::vector<double> X(B); int err;
  if (nr == 1 && n == 2 && c.b()) { std::vector<double> A0(A); if (c.b()) { err = vl_solve_linear_system_2(X.data(), A.data(), B.data()); } else err = vl_solve_linear_system_2(X.data(), A.data(), X.data()); VT_ASSERT(c, A == A0, "matrix modified"); }
  else if (nr == 1 && n == 3 && c.b()) { std::vector<double> A0(A); if (c.b()) { err = vl_solve_linear_system_3(X.data(), A.data(), B.data()); } else err = vl_solve_linear_system_3(X.data(), A.data(), X.data()); VT_ASSERT(c, A == A0, "matrix modified"); }
  else { double *M = (double *)malloc(sizeof(double) * (n * n + n * nr)); memcpy(M, A.data(), 8 * n * n); memcpy(M + n * n, B.data(), 8 * n * nr);
    err = vl_gaussian_elimination(M, n, n + nr); memcpy(X.data(), M + n * n, 8 * n * nr); free(M); }
  if (sing) { c.label("singular"); VT_ASSERT(c, err != VL_ERR_OK, "singular system reported as solved"); return; }
  // smallest pivot magnitude of an independent partial-pivoting elimination decides whether failure may be reported
  std::vector<ld> L(A.begin(), A.end()); ld minp = 1e300L, growth = 0; for (auto x : L) growth = std::max(growth, fabsl(x));
  for (int j = 0; j < n && minp > 0; ++j) { int pv = j; for (int i = j; i < n; ++i) if (fabsl(L[i + j * n]) > fabsl(L[pv + j * n])) pv = i; minp = std::min(minp, fabsl(L[pv + j * n])); if (minp == 0) break;
    for (int k = 0; k < n; ++k) std::swap(L[pv + k * n], L[j + k * n]);
    for (int i = j + 1; i < n; ++i) { ld m = L[i + j * n] / L[j + j * n]; for (int k = j; k < n; ++k) { L[i + k * n] -= m * L[j + k * n]; growth = std::max(growth, fabsl(L[i + k * n])); } } }
  if (minp < 1e-15L) { c.label("singular by chance"); VT_ASSERT(c, growth > 200 || n > 3 || err != VL_ERR_OK, "singular system reported as solved"); return; }
  if (err) { VT_ASSERT(c, minp < 1e-8L, "regular system (smallest pivot %.3Lg) reported as unsolvable: %d", minp, err); return; }
  for (int r = 0; r < nr; ++r) for (int i = 0; i < n; ++i) {
    ld s = -B[i + r * n], m = fabsl(s); ld xm = 0; for (int j = 0; j < n; ++j) { s += (ld)A[i + j * n] * X[j + r * n]; xm = std::max(xm, fabsl((ld)X[j + r * n])); }
    VT_ASSERT(c, fabsl(s) <= 1e-14L * n * n * (growth * xm + m) + 1e-300L, "equation %d, right-hand side %d: residual %.3Lg", i, r, s);
  }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
