// L02: SVM losses, conjugates, derivatives and coordinate updates.
#include "vt.h"
#include "vl_all.h"
typedef double (*F2)(double, double);
typedef double (*F4)(double, double, double, double);
struct Loss { const char *name; F2 loss, der, conj; F4 dca; bool classification; };
static const Loss L[] = {{"hinge", vl_svm_hinge_loss, vl_svm_hinge_loss_derivative, vl_svm_hinge_conjugate_loss, vl_svm_hinge_dca_update, true}, {"hinge2", vl_svm_hinge2_loss, vl_svm_hinge2_loss_derivative, vl_svm_hinge2_conjugate_loss, vl_svm_hinge2_dca_update, true}, {"l1", vl_svm_l1_loss, vl_svm_l1_loss_derivative, vl_svm_l1_conjugate_loss, vl_svm_l1_dca_update, false}, {"l2", vl_svm_l2_loss, vl_svm_l2_loss_derivative, vl_svm_l2_conjugate_loss, vl_svm_l2_dca_update, false}, {"logistic", vl_svm_logistic_loss, vl_svm_logistic_loss_derivative, vl_svm_logistic_conjugate_loss, vl_svm_logistic_dca_update, true}};
static double refLoss(int t, double z, double y) { switch (t) { case 0: return std::max(0.0, 1 - y * z); case 1: { double a = std::max(0.0, 1 - y * z); return a * a; } case 2: return fabs(y - z); case 3: return (y - z) * (y - z); } double m = y * z; return m > 0 ? log1p(exp(-m)) : -m + log1p(exp(m)); }
static double xlx(double x) { return x <= 0 ? 0 : x * log(x); }
// sup_z u z - loss(z), in closed form from the definition of the losses
static double refConj(int t, double u, double y) { double a = y * u; switch (t) { case 0: return a >= -1 && a <= 0 ? a : INFINITY; case 1: return a <= 0 ? a + u * u / 4 : INFINITY; case 2: return fabs(u) <= 1 ? a : INFINITY; case 3: return a + u * u / 4; } return a >= -1 && a <= 0 ? xlx(-a) + xlx(1 + a) : INFINITY; }
static double value(vt::Ctx &c, double y) { switch ((int)c.i(0, 5)) { case 0: return c.pick({0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0}); case 1: return y; case 2: return y ? 1 / y : 0; case 3: return c.real(-3, 3); case 4: return c.real(-40, 40); default: return (c.b() ? 1 : -1) * pow(10.0, c.real(-8, 2.6)); } }
static double label(vt::Ctx &c, int t) { return L[t].classification || c.chance(1, 2) ? (c.b() ? 1.0 : -1.0) : c.pick({c.real(-5, 5), 0.0, 100.0}); }
VT_CHECK(formulas, 500000, 10000000, "the loss is positive") {
  int t = (int)c.i(0, 4); const Loss &l = L[t]; double y = label(c, t), z = value(c, y), w = value(c, y); c.note("%s label %g at %.17g and %.17g", l.name, y, z, w);
  auto close = [](double a, double b) { return fabs(a - b) <= 1e-14 * (fabs(a) + fabs(b)) + 1e-15; };
  double lz = l.loss(z, y), lw = l.loss(w, y), g = l.der(z, y); if (lz > 0) c.nontrivial(); VT_ASSERT(c, close(lz, refLoss(t, z, y)), "loss is %.17g, should be %.17g", lz, refLoss(t, z, y));
  // derivative: a subgradient (supports the loss from below everywhere)
  double sc = fabs(lz) + fabs(lw) + fabs(g * (w - z)); VT_ASSERT(c, lw >= lz + g * (w - z) - 1e-13 * sc - 1e-15, "%g is not a subgradient: loss(%g) = %.17g < %.17g", g, w, lw, lz + g * (w - z));
  double eta = 1e-6 * std::max(1.0, fabs(z)), s1 = (l.loss(z + eta, y) - lz) / eta, s0 = (lz - l.loss(z - eta, y)) / eta, tol = 1e-5 * (1 + fabs(g)) + 1e-8 * fabs(lz) / eta * 1e-6; VT_ASSERT(c, g >= std::min(s0, s1) - tol && g <= std::max(s0, s1) + tol, "derivative %g outside of the one sided slopes [%g,%g]", g, s0, s1);
  // Fenchel-Young at the derivative: equality
  double k = l.conj(g, y); VT_ASSERT(c, k < INFINITY, "conjugate infinite at a derivative %g", g); VT_ASSERT(c, fabs(lz + k - g * z) <= 1e-9 * (fabs(lz) + fabs(k) + fabs(g * z)) + 6e-9, "loss %.15g + conjugate %.15g differs from %.15g at the derivative", lz, k, g * z);
}
VT_CHECK(conjugate, 500000, 10000000, "the conjugate is finite") {
  int t = (int)c.i(0, 4); const Loss &l = L[t]; double y = label(c, t), u = c.chance(1, 4) ? c.pick({0.0, 1.0, -1.0, 1.0000001, -1.0000001, 1e-12, -1e-12}) : c.real(-1.5, 1.5) * c.pick({1.0, 10.0, 0.01}); if (c.chance(1, 2)) u = -y * fabs(u); double z = value(c, y); c.note("%s label %g slope %.17g point %g", l.name, y, u, z);
  double k = l.conj(u, y), r = refConj(t, u, y); if (r < INFINITY) c.nontrivial(); bool edge = fabs(fabs(u) - 1) < 1e-12 || fabs(u) < 1e-300; if (r < INFINITY || !edge) VT_ASSERT(c, k == r || fabs(k - r) <= 1e-14 * (fabs(k) + fabs(r)) + 3e-9, "conjugate is %.17g, should be %.17g", k, r);
  if (k < INFINITY) { double lz = l.loss(z, y); VT_ASSERT(c, lz + k >= u * z - 1e-12 * (fabs(lz) + fabs(k) + fabs(u * z)) - 3e-9, "Fenchel-Young fails: %.15g + %.15g < %.15g", lz, k, u * z); }
}
// single coordinate dual: -conj(-(alpha+delta)) - inner delta - norm2/2 delta^2
static double dual(int t, double alpha, double d, double inner, double n2, double y) { return -refConj(t, -(alpha + d), y) - inner * d - 0.5 * n2 * d * d; }
static double bestCoordinate(int t, double alpha, double inner, double n2, double y) { double lo, hi; // interval of feasible alpha + delta
  switch (t) { case 0: case 4: lo = std::min(0.0, y); hi = std::max(0.0, y); break; case 1: { double r = 10 * (fabs(alpha) + 2 + 2 * fabs(inner)); lo = y > 0 ? 0 : -r; hi = y > 0 ? r : 0; break; } case 2: lo = -1; hi = 1; break; default: { double r = 10 * (fabs(alpha) + 2 * (1 + fabs(y) + fabs(inner))); lo = -r; hi = r; } }
  for (int k = 0; k < 300; ++k) { double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3; if (dual(t, alpha, a - alpha, inner, n2, y) < dual(t, alpha, b - alpha, inner, n2, y)) lo = a; else hi = b; } return 0.5 * (lo + hi); }
VT_CHECK(dca_update, 300000, 6000000, "the update moves the variable") {
  int t = (int)c.i(0, 4); const Loss &l = L[t]; double y = label(c, t), a = 0; switch (t) { case 0: case 4: a = y * (c.chance(1, 3) ? c.pick({0.0, 1.0, 0.5, 1e-9, 1 - 1e-9}) : c.uni()); break; case 1: a = y * fabs(value(c, y)); break; case 2: a = c.chance(1, 3) ? c.pick({0.0, 1.0, -1.0}) : c.real(-1, 1); break; default: a = value(c, y); }
  double inner = value(c, y), n2 = c.chance(1, 8) ? 0.0 : pow(10.0, c.real(-4, 4)); c.note("%s label %g alpha %.17g inner %.17g norm2 %.17g", l.name, y, a, inner, n2); if (n2 == 0) { inner = 0; c.label("zero vector"); } double d = l.dca(a, inner, n2, y); VT_ASSERT(c, std::isfinite(d), "update is %g", d); if (d != 0) c.nontrivial();
  double na = a + d; VT_ASSERT(c, l.conj(-na, y) < INFINITY && refConj(t, -na, y) < INFINITY, "update moves the variable to %.17g, outside of the feasible set", na);
  double D0 = dual(t, a, 0, inner, n2, y), D1 = dual(t, a, d, inner, n2, y), bn = bestCoordinate(t, a, inner, n2, y), DB = dual(t, a, bn - a, inner, n2, y), sc = fabs(D0) + fabs(D1) + fabs(inner * d) + 0.5 * n2 * d * d + fabs(refConj(t, -a, y)) + fabs(inner * (bn - a)) + 0.5 * n2 * (bn - a) * (bn - a);
  if (t == 4) { // approximate: five bisections and two Newton steps
    double gain = DB - D0; c.label("logistic shortfall 10^%d", DB - D1 <= 1e-9 ? -9 : (int)floor(log10(DB - D1))); VT_ASSERT(c, DB - D1 <= 0.01 + 1e-12 * sc, "the update gains %g, the best one %g", D1 - D0, gain); return; }
  VT_ASSERT(c, D1 >= D0 - 1e-12 * sc, "the dual objective decreases by %g", D0 - D1); VT_ASSERT(c, D1 >= DB - 1e-11 * sc - 1e-13, "update %.15g reaches dual gain %.15g, %.15g reaches %.15g", d, D1 - D0, bn - a, DB - D0);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
