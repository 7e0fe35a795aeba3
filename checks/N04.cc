// N04: Rodrigues formula, inverse and derivatives.
#include "vt.h"
#include "vl_all.h"
typedef long double ld;
static const ld PI_ = 3.14159265358979323846264338327950288L;
static void refR(const ld om[3], ld R[9]) {   // via the unit quaternion
  ld th = sqrtl(om[0] * om[0] + om[1] * om[1] + om[2] * om[2]), w = cosl(th / 2), s = th > 0 ? sinl(th / 2) / th : 0.5L, x = s * om[0], y = s * om[1], z = s * om[2];
  ld M[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)}, {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)}, {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i + 3 * j] = M[i][j];
}
static void gen_axis(vt::Ctx &c, double n[3]) {
  switch (c.i(0, 3)) {
    case 0: { n[0] = n[1] = n[2] = 0; n[c.i(0, 2)] = c.b() ? 1 : -1; break; }
    case 1: for (int i = 0; i < 3; ++i) n[i] = (double)c.i(-2, 2); if (!n[0] && !n[1] && !n[2]) n[0] = 1; break;
    case 2: { for (int i = 0; i < 3; ++i) n[i] = c.real(-1, 1); n[c.i(0, 2)] *= std::exp(c.real(-30, 0)); break; }
    default: for (int i = 0; i < 3; ++i) n[i] = c.real(-1, 1);
  }
  double m = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); if (m == 0) { n[0] = 1; m = 1; } for (int i = 0; i < 3; ++i) n[i] /= m;
}
static double gen_angle(vt::Ctx &c) {
  switch (c.i(0, 6)) {
    case 0: return c.real(0, 3.2);
    case 1: return 0;
    case 2: return std::exp(c.real(-20, 0));
    case 3: return (double)PI_ - std::exp(c.real(-34, 0));
    case 4: return (double)PI_;
    case 5: return c.real(3.1, 40);
    default: return c.i(0, 8) * (double)(PI_ / 4) + (c.b() ? 0 : 1e-6 * c.i(-3, 3));
  }
}
VT_CHECK(forward, 200000, 5000000, "angle at least 1e-6") {
  double n[3]; gen_axis(c, n); double th = gen_angle(c); double om[3] = {n[0] * th, n[1] * th, n[2] * th}; c.note("om=(%.17g,%.17g,%.17g)", om[0], om[1], om[2]);
  double *R = (double *)malloc(72), *R2 = (double *)malloc(72), *D = (double *)malloc(27 * 8); std::unique_ptr<double, void (*)(void *)> g1(R, free), g2(R2, free), g3(D, free);
  vl_rodrigues(R, nullptr, om); vl_rodrigues(R2, D, om);
  VT_ASSERT(c, !memcmp(R, R2, 72), "rotation depends on whether derivatives are requested");
  ld o[3] = {om[0], om[1], om[2]}, E[9]; refR(o, E); ld t = sqrtl(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]);
  if (t >= 1e-6L) c.nontrivial(); c.label(t < 1e-6L ? "tiny" : t > 3.15L ? "large" : fabsl(t - PI_) < 1e-4L ? "near pi" : "generic");
  ld tol = t < 1e-6L ? 1.1e-6L : 1e-14L * (1 + t);
  for (int k = 0; k < 9; ++k) VT_ASSERT(c, fabsl(R[k] - E[k]) <= tol, "R[%d]=%.17g, exponential %.17Lg", k, R[k], E[k]);
  // derivative by central differences of the long-double reference
  for (int j = 0; j < 3; ++j) {
    ld h = 1e-5L, a[3], b[3], A[9], B[9]; for (int k = 0; k < 3; ++k) a[k] = b[k] = o[k]; a[j] += h; b[j] -= h; refR(a, A); refR(b, B);
    for (int k = 0; k < 9; ++k) { ld d = (A[k] - B[k]) / (2 * h); VT_ASSERT(c, fabsl(D[k + 9 * j] - d) <= 5e-6L, "dR[%d]/dom[%d]=%.12g, numeric %.12Lg (angle %.6Lg)", k, j, D[k + 9 * j], d, t); }
  }
}
VT_CHECK(inverse, 300000, 8000000, "rotation is not the identity") {
  double n[3]; gen_axis(c, n); double th = gen_angle(c); double R[9]; int how = c.i(0, 4);
  double om[3] = {n[0] * th, n[1] * th, n[2] * th};
  if (how == 0) vl_rodrigues(R, nullptr, om);
  else if (how == 1) { ld o[3] = {om[0], om[1], om[2]}, E[9]; refR(o, E); for (int k = 0; k < 9; ++k) R[k] = (double)E[k]; }
  else if (how == 2) { // product of two rotations, close to the rotation by th
    double m[3], A[9], B[9]; gen_axis(c, m); double s = gen_angle(c), o2[3] = {m[0] * s, m[1] * s, m[2] * s}, o3[3] = {-o2[0], -o2[1], -o2[2]}, C2[9], T[9];
    vl_rodrigues(A, nullptr, o2); vl_rodrigues(C2, nullptr, o3); vl_rodrigues(B, nullptr, om);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { T[i + 3 * j] = 0; for (int k = 0; k < 3; ++k) T[i + 3 * j] += A[i + 3 * k] * B[k + 3 * j]; }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { R[i + 3 * j] = 0; for (int k = 0; k < 3; ++k) R[i + 3 * j] += T[i + 3 * k] * C2[k + 3 * j]; }
  } else if (how == 3) { // half turn 2nn'-I
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) R[i + 3 * j] = 2 * n[i] * n[j] - (i == j);
  } else { // signed permutation with determinant one
    static const int P[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}}; int p = c.i(0, 5); double s0 = c.b() ? 1 : -1, s1 = c.b() ? 1 : -1, s2 = s0 * s1 * (p >= 3 ? -1 : 1);
    for (double &x : R) x = 0; R[0 + 3 * P[p][0]] = s0; R[1 + 3 * P[p][1]] = s1; R[2 + 3 * P[p][2]] = s2; }
  c.note("how=%d R=[%.17g %.17g %.17g; %.17g %.17g %.17g; %.17g %.17g %.17g]", how, R[0], R[3], R[6], R[1], R[4], R[7], R[2], R[5], R[8]);
  double o1[3], o2[3], D[27]; vl_irodrigues(o1, nullptr, R); vl_irodrigues(o2, D, R);
  VT_ASSERT(c, std::isfinite(o1[0]) && std::isfinite(o1[1]) && std::isfinite(o1[2]), "non-finite rotation vector");
  VT_ASSERT(c, !memcmp(o1, o2, sizeof o1), "rotation vector depends on whether derivatives are requested");
  ld o[3] = {o1[0], o1[1], o1[2]}, E[9]; refR(o, E); ld t = sqrtl(o[0] * o[0] + o[1] * o[1] + o[2] * o[2]);
  // exact angle of R from its antisymmetric and trace parts
  ld sx = ((ld)R[5] - R[7]) / 2, sy = ((ld)R[6] - R[2]) / 2, sz = ((ld)R[1] - R[3]) / 2, sn = sqrtl(sx * sx + sy * sy + sz * sz), cs = ((ld)R[0] + R[4] + R[8] - 1) / 2; ld ang = atan2l(sn, cs), d = PI_ - ang;
  if (ang > 1e-6L) c.nontrivial(); c.label(d < 1e-6L ? "half turn" : d < 1e-3L ? "near pi" : ang < 1e-5L ? "tiny" : "generic");
  ld tol = d < 1.5e-6L ? 5e-3L : 1e-7L + 50 * 2.2e-16L / (d * d); if (d < 0.9e-6L) tol = 1e-5L;
  if (ang > 0.05L && d > 0.05L) tol = 1e-13L * (1 + 1 / (d * d) + 1 / (ang * ang));
  VT_ASSERT(c, t <= PI_ + tol, "norm %.17Lg exceeds pi", t);
  for (int k = 0; k < 9; ++k) VT_ASSERT(c, fabsl(E[k] - R[k]) <= tol, "exp of the returned vector differs from R at %d: %.12Lg vs %.12g (angle %.9Lg)", k, E[k], R[k], ang);
  if (how == 4 || ang < 0.05L || d < 0.05L) return;
  c.label("derivative checked");
  for (int j = 0; j < 3; ++j) {   // tangent direction R*hat(e_j)
    ld h = 1e-4L, w[3] = {0, 0, 0}, X[9], v[2][3], T[9]; ld dR[9];
    for (int s = 0; s < 2; ++s) { w[0] = w[1] = w[2] = 0; w[j] = s ? -h : h; refR(w, X);
      for (int i = 0; i < 3; ++i) for (int k = 0; k < 3; ++k) { T[i + 3 * k] = 0; for (int l = 0; l < 3; ++l) T[i + 3 * k] += R[i + 3 * l] * X[l + 3 * k]; }
      ld ax = (T[5] - T[7]) / 2, ay = (T[6] - T[2]) / 2, az = (T[1] - T[3]) / 2, n2 = sqrtl(ax * ax + ay * ay + az * az), a2 = atan2l(n2, (T[0] + T[4] + T[8] - 1) / 2);
      v[s][0] = ax * a2 / n2; v[s][1] = ay * a2 / n2; v[s][2] = az * a2 / n2; for (int k = 0; k < 9; ++k) dR[k] = s ? (dR[k] - T[k]) / (2 * h) : T[k]; }
    for (int i = 0; i < 3; ++i) { ld an = 0, nu = (v[0][i] - v[1][i]) / (2 * h); for (int k = 0; k < 9; ++k) an += D[i + 3 * k] * dR[k];
      VT_ASSERT(c, fabsl(an - nu) <= 2e-6L / (d * d), "directional derivative %d of component %d: %.12Lg, numeric %.12Lg", j, i, an, nu); }
  }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
