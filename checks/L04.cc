// L04: homogeneous kernel maps.
#include "vt.h"
#include "vl_all.h"
typedef std::vector<double> dvec;
struct HomDel { void operator()(VlHomogeneousKernelMap *h) { vl_homogeneouskernelmap_delete(h); } }; typedef std::unique_ptr<VlHomogeneousKernelMap, HomDel> Hom;
enum { INTER, CHI2, JS };
static const char *NAME[] = {"intersection", "chi2", "js"};
static double signature(int k, double l) { l = fabs(l); switch (k) { case INTER: return exp(-l / 2); case CHI2: return 2 / (exp(l / 2) + exp(-l / 2)); } return (exp(l / 2) * log2(1 + exp(-l)) + exp(-l / 2) * log2(1 + exp(l))) / 2; }
static double spectrum(int k, double w) { switch (k) { case INTER: return 2 / M_PI / (1 + 4 * w * w); case CHI2: return 1 / cosh(M_PI * w); } return 2 / log(4.0) / cosh(M_PI * w) / (1 + 4 * w * w); }
// spectrum of the kernel signature truncated to one period: computed from the signature itself
static double windowed(int k, double T, double w) { int N = 2 * (int)ceil(200 + 40 * w * T) ; double h = T / 2 / N, s = 0; for (int i = 0; i <= N; ++i) { double l = i * h, v = signature(k, l) * cos(w * l); s += (i == 0 || i == N ? 1 : i % 2 ? 4 : 2) * v; } return s * h / 3 / M_PI; }
static double defaultPeriod(int k, bool rect, double n) { double p = rect ? (k == CHI2 ? 8.80 * sqrt(n + 4.44) - 12.6 : k == JS ? 9.63 * sqrt(n + 1.00) - 2.93 : 2.00 * log(n + 0.99) + 3.52) : (k == CHI2 ? 5.86 * sqrt(n) + 3.65 : k == JS ? 6.64 * sqrt(n) + 7.24 : 2.38 * log(n + 0.8) + 5.6); return std::max(p, 1.0); }
static const VlHomogeneousKernelType TYPE[] = {VlHomogeneousKernelIntersection, VlHomogeneousKernelChi2, VlHomogeneousKernelJS};
struct Cfg { int k, n; bool rect; double gamma, T; bool dflt; };
static Cfg draw(vt::Ctx &c, Hom &h) { Cfg g; g.k = (int)c.i(0, 2); g.n = (int)c.pick({1, 0, 2, 3, 4, 5, 7, 10}); g.rect = c.b(); g.gamma = c.chance(1, 3) ? c.real(0.1, 3) : c.pick({1.0, 0.5, 2.0}); g.dflt = c.b(); g.T = g.dflt ? defaultPeriod(g.k, g.rect, g.n) : c.chance(1, 2) ? c.real(1, 20) : c.pick({4.0, 6.0, 10.0, 15.0}); h.reset(vl_homogeneouskernelmap_new(TYPE[g.k], g.gamma, g.n, g.dflt ? -1.0 : g.T, g.rect ? VlHomogeneousKernelMapWindowRectangular : VlHomogeneousKernelMapWindowUniform)); c.note("%s order %d gamma %g period %g%s %s window", NAME[g.k], g.n, g.gamma, g.T, g.dflt ? " (default)" : "", g.rect ? "rectangular" : "uniform"); VT_ASSERT(c, h && vl_homogeneouskernelmap_get_order(h.get()) == (vl_size)g.n && vl_homogeneouskernelmap_get_dimension(h.get()) == (vl_size)(2 * g.n + 1) && vl_homogeneouskernelmap_get_kernel_type(h.get()) == TYPE[g.k] && vl_homogeneouskernelmap_get_window_type(h.get()) == (g.rect ? VlHomogeneousKernelMapWindowRectangular : VlHomogeneousKernelMapWindowUniform), "stored parameters"); return g; }
static dvec eval(VlHomogeneousKernelMap *h, double x) { dvec v(vl_homogeneouskernelmap_get_dimension(h)); vl_homogeneouskernelmap_evaluate_d(h, v.data(), 1, x); return v; }
static double arg(vt::Ctx &c) { switch ((int)c.i(0, 3)) { case 0: return c.pick({1.0, 0.5, 2.0, 0.25, 1.5, 100.0, 0.75}); case 1: return c.real(0.01, 2); case 2: return exp2(c.real(-20, 8)) * 0.99999; default: return ldexp(1 + c.i(0, 95) / 96.0, (int)c.i(-20, 7)); } }
// frequencies and weights of the map.  Windowing can make a sample of the spectrum zero: such samples are skipped
static bool samples(const Cfg &g, dvec &freq, dvec &kap, double &tol) { double L = 2 * M_PI / g.T; freq.clear(); kap.clear(); tol = g.rect ? 4e-3 * (g.k == INTER ? 1 : 1) : 1e-14; size_t j = 0, i = 0; freq.resize(g.n + 1); kap.resize(g.n + 1); while ((int)i <= g.n) { freq[i] = j; double v = g.rect ? windowed(g.k, g.T, j * L) : spectrum(g.k, j * L); if (g.rect && fabs(v) < tol) return false; kap[i] = std::max(v, 0.0); ++j; if (kap[i] > 0 || j >= 3 * i) ++i; } return true; }
VT_CHECK(feature_map, 40000, 400000, "order at least one and argument within the table") {
  Hom h; Cfg g = draw(c, h); double x = arg(c); c.note("argument %.17g", x); dvec v = eval(h.get(), x); dvec fr, ka; double tol; if (!samples(g, fr, ka, tol)) { c.label("undecided: a spectrum sample is nearly zero"); return; } if (g.n) c.nontrivial(); double L = 2 * M_PI / g.T, H = 1.0 / (8 + 8 * g.n); int e; double m = 2 * frexp(x, &e); (void)m; double step = ldexp(H, e - 1), xl = x - step, xr = x + step;
  for (int j = 0; j <= g.n; ++j) { double om = fr[j] * L, amp = sqrt((j ? 2 : 1) * L * ka[j]), p = pow(x, g.gamma / 2); double r[2] = {amp * p * cos(om * log(x)), amp * p * sin(om * log(x))}; // linear interpolation between table nodes at most `step' apart
    double a = g.gamma / 2, q = std::max(pow(xl, a - 2), pow(xr, a - 2)), curv = amp * q * (fabs(a * (a - 1)) + om * om + om * fabs(2 * a - 1)), bound = 0.125 * step * step * curv * 1.02 + 1e-12 * amp * p + (g.rect ? (sqrt((j ? 2 : 1) * L * (ka[j] + tol)) - sqrt((j ? 2 : 1) * L * std::max(0.0, ka[j] - tol))) * p : 0);
    for (int z = 0; z < (j ? 2 : 1); ++z) { double got = v[j ? 2 * j - 1 + z : 0]; VT_ASSERT(c, fabs(got - r[z]) <= bound, "component %d is %.12g, should be %.12g (tolerance %.3g)", j ? 2 * j - 1 + z : 0, got, r[z], bound); } }
}
VT_CHECK(precise_on_nodes, 20000, 200000, "order at least one") { // octave boundaries are table nodes: no interpolation error
  Hom h; Cfg g = draw(c, h); if (g.rect) { // ratios between octaves do not depend on the window weights
    dvec a = eval(h.get(), 1.0); double x = ldexp(1.0, (int)c.i(-19, 7)); dvec b = eval(h.get(), x); double q = pow(x, g.gamma / 2); VT_ASSERT(c, fabs(b[0] - a[0] * q) <= 1e-12 * a[0] * q, "homogeneity of the constant component: %.15g and %.15g", b[0], a[0] * q); for (int j = 1; j <= g.n; ++j) { c.nontrivial(); VT_ASSERT(c, a[2 * j] == 0 && a[2 * j - 1] >= 0, "phase at one"); double A = hypot(b[2 * j - 1], b[2 * j]); VT_ASSERT(c, fabs(A - a[2 * j - 1] * q) <= 1e-12 * A + 1e-300, "modulus of harmonic %d is %.15g, should be %.15g", j, A, a[2 * j - 1] * q); } return; }
  double x = ldexp(1.0, (int)c.i(-19, 7)), L = 2 * M_PI / g.T; dvec v = eval(h.get(), x); c.note("argument %g", x); for (int j = 0; j <= g.n; ++j) { double amp = sqrt((j ? 2 : 1) * L * spectrum(g.k, j * L) * pow(x, g.gamma)), r[2] = {amp * cos(j * L * log(x)), amp * sin(j * L * log(x))}; if (j) c.nontrivial(); for (int z = 0; z < (j ? 2 : 1); ++z) { double got = v[j ? 2 * j - 1 + z : 0]; VT_ASSERT(c, fabs(got - r[z]) <= 1e-11 * amp * (1 + j * L), "component %d of harmonic %d is %.15g, should be %.15g", z, j, got, r[z]); } }
}
VT_CHECK(symmetry_precision_stride, 40000, 400000, "non-zero feature") {
  Hom h; Cfg g = draw(c, h); int cls = (int)c.i(0, 5); double x = cls == 0 ? 0.0 : cls == 1 ? exp2(c.real(-60, -20.001)) : arg(c); if (c.b()) x = (float)x; c.note("argument %.17g", x); size_t D = 2 * g.n + 1, st = (size_t)c.pick({1, 2, 3, 7}); dvec v = eval(h.get(), x), m = eval(h.get(), -x); for (size_t j = 0; j < D; ++j) { VT_ASSERT(c, v[j] == -m[j], "component %zu at %g is %g, at the opposite %g", j, x, v[j], m[j]); if (v[j] != 0) c.nontrivial(); if (fabs(x) < exp2(-20)) VT_ASSERT(c, v[j] == 0, "component %zu of a vanishing argument is %g", j, v[j]); }
  if (x >= exp2(-20) && x < 256) VT_ASSERT(c, v[0] > 0, "null feature for an argument within the table");
  dvec d(D * st + 2, -77.0); vl_homogeneouskernelmap_evaluate_d(h.get(), d.data() + 1, st, x); std::vector<float> f(D * st + 2, -77.0f); vl_homogeneouskernelmap_evaluate_f(h.get(), f.data() + 1, st, x); for (size_t k = 0; k < d.size(); ++k) { size_t j = k - 1; bool in = k >= 1 && j % st == 0 && j / st < D; if (!in) VT_ASSERT(c, d[k] == -77 && f[k] == -77.0f, "element %zu outside of the strided output written", k); else { VT_ASSERT(c, d[k] == v[j / st], "stride %zu changes component %zu", st, j / st); VT_ASSERT(c, fabs(f[k] - v[j / st]) <= 1.3e-7 * fabs(v[j / st]) + 1e-44, "component %zu is %.9g in single, %.9g in double precision", j / st, f[k], v[j / st]); } }
}
// the default maps approximate the kernel itself
VT_CHECK(kernel_approximation, 20000, 200000, "arguments differ by less than the period") {
  Hom h; int k = (int)c.i(0, 2), n = (int)c.pick({3, 1, 2, 5, 8, 10}); bool rect = c.b(); double gamma = c.pick({1.0, 0.5, 2.0}); h.reset(vl_homogeneouskernelmap_new(TYPE[k], gamma, n, -1, rect ? VlHomogeneousKernelMapWindowRectangular : VlHomogeneousKernelMapWindowUniform)); double T = defaultPeriod(k, rect, n), x = exp2(c.real(-12, 7)), r = c.chance(1, 8) ? 1.0 : exp(c.real(-0.5, 0.5) * T * 0.6), y = std::min(255.0, std::max(x * r, 1e-6)); c.note("%s order %d gamma %g %s window x %g y %g", NAME[k], n, gamma, rect ? "rectangular" : "uniform", x, y); c.nontrivial(); dvec a = eval(h.get(), x), b = eval(h.get(), y); double ip = 0; for (size_t j = 0; j < a.size(); ++j) ip += a[j] * b[j]; double l = log(y / x), s = ip / pow(x * y, gamma / 2), want = signature(k, l), bound = (k == INTER ? 0.25 : 0.16) * (n == 1 ? 1.4 : n == 2 ? 1.1 : 1); c.label("%s n%d error %.2f", NAME[k], n, floor(fabs(s - want) * 50) / 50); VT_ASSERT(c, fabs(s - want) <= bound, "normalised product of the features is %.4f, kernel signature %.4f", s, want);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
