// G01: quick shift.
#include "feat.h"
#include "vl_all.h"
typedef std::unique_ptr<VlQS, void (*)(VlQS *)> Own;
struct Cfg { int h, w, K; double sigma, tau; };
static dvec draw(vt::Ctx &c, Cfg &k) { k.h = (int)c.i(1, 14); k.w = (int)c.i(1, 14); k.K = (int)c.pick({1, 3, 2}); k.sigma = c.pick({1.0, 2.0, 0.5, 3.0, 0.3, 6.0}); k.tau = c.chance(1, 3) ? c.real(0.5, 20) : c.pick({2.0, 3.0, 5.0, 1.0, 10.0, 100.0, 1.5}); double amp = c.pick({1.0, 5.0, 50.0, 0.1}); bool integer = c.chance(1, 4), sgn = c.chance(1, 3); dvec I; for (int z = 0; z < k.K; ++z) { fvec p; int cls = genimg(c, p, k.h, k.w, amp); c.note("%s", imclass(cls)); for (float v : p) { double x = sgn ? v - 0.5 * amp : v; I.push_back(integer ? floor(x) : x); } } c.note("%dx%d %d channels amplitude %g sigma %g tau %g", k.h, k.w, k.K, amp, k.sigma, k.tau); return I; }
static double D2(const dvec &I, const Cfg &k, int i, int j) { int N = k.h * k.w; double a = i % k.h - j % k.h, b = i / k.h - j / k.h, d = a * a + b * b; for (int z = 0; z < k.K; ++z) { double e = I[i + N * z] - I[j + N * z]; d += e * e; } return d; }
static bool inWindow(const Cfg &k, int i, int j, int R) { return abs(i % k.h - j % k.h) <= R && abs(i / k.h - j / k.h) <= R; }
static void checkDensity(vt::Ctx &c, const dvec &I, const Cfg &k, VlQS *q, dvec &E) { int N = k.h * k.w, R = (int)ceil(3 * k.sigma); E.assign(N, 0.0); for (int i = 0; i < N; ++i) { for (int j = 0; j < N; ++j) if (inWindow(k, i, j, R)) E[i] += exp(-D2(I, k, i, j) / (2 * k.sigma * k.sigma)); double g = vl_quickshift_get_density(q)[i]; VT_ASSERT(c, fabs(g - E[i]) <= 1e-9 * E[i], "density of pixel %d is %.12g, Parzen estimate is %.12g", i, g, E[i]); } }
static void before(vt::Ctx &c, VlQS *q, dvec &buf, const dvec &I) { if (c.chance(1, 3)) { c.label("object used before"); vt::Stream s = c.stream(); for (double &v : buf) v = s.real(0, 10); vl_quickshift_set_kernel_size(q, s.real(0.3, 4)); vl_quickshift_set_max_dist(q, s.real(0.3, 8)); vl_quickshift_set_medoid(q, (int)s.below(2)); vl_quickshift_process(q); buf = I; } }
VT_CHECK(quick_shift, 40000, 300000, "some pixel links to another") {
  Cfg k; dvec I = draw(c, k), buf = I; VlQS *q = vl_quickshift_new(buf.data(), k.h, k.w, k.K); Own own(q, vl_quickshift_delete); VT_ASSERT(c, !vl_quickshift_get_medoid(q), "medoid variant by default"); before(c, q, buf, I); vl_quickshift_set_kernel_size(q, k.sigma); vl_quickshift_set_max_dist(q, k.tau); vl_quickshift_set_medoid(q, VL_FALSE); VT_ASSERT(c, vl_quickshift_get_kernel_size(q) == k.sigma && vl_quickshift_get_max_dist(q) == k.tau, "parameters not stored"); vl_quickshift_process(q); VT_ASSERT(c, buf == I, "image modified");
  dvec E; checkDensity(c, I, k, q, E); int N = k.h * k.w; double const *e = vl_quickshift_get_density(q), *ds = vl_quickshift_get_dists(q); int const *pa = vl_quickshift_get_parents(q); double t2 = k.tau * k.tau; int links = 0;
  for (int i = 0; i < N; ++i) { double lo = INFINITY, hi = INFINITY; for (int j = 0; j < N; ++j) if (e[j] > e[i]) { double d = D2(I, k, i, j); if (d <= t2 * (1 + 1e-12)) lo = std::min(lo, d); if (d <= t2 * (1 - 1e-12)) hi = std::min(hi, d); }
    VT_ASSERT(c, pa[i] >= 0 && pa[i] < N, "parent of %d is %d", i, pa[i]); if (pa[i] == i) { VT_ASSERT(c, ds[i] == INFINITY, "root %d has distance %g", i, ds[i]); VT_ASSERT(c, hi == INFINITY, "pixel %d is a root but a pixel of higher density lies at distance %g", i, sqrt(hi)); continue; } ++links; double d = D2(I, k, i, pa[i]); VT_ASSERT(c, e[pa[i]] > e[i], "pixel %d links to %d of density %.17g, not higher than %.17g", i, pa[i], e[pa[i]], e[i]); VT_ASSERT(c, fabs(ds[i] - sqrt(d)) <= 1e-12 * ds[i], "distance of %d is %.15g, should be %.15g", i, ds[i], sqrt(d)); VT_ASSERT(c, d <= t2 * (1 + 1e-12) && d <= hi * (1 + 1e-12), "pixel %d links at distance %g although %g is possible (maximum %g)", i, sqrt(d), sqrt(hi), k.tau); }
  if (links) c.nontrivial(); for (int i = 0; i < N; ++i) { int j = i, n = 0; while (pa[j] != j && n <= N) { j = pa[j]; ++n; } VT_ASSERT(c, n <= N, "cycle through pixel %d", i); }
}
VT_CHECK(medoid, 30000, 200000, "some pixel links to another") {
  Cfg k; dvec I = draw(c, k), buf = I; VlQS *q = vl_quickshift_new(buf.data(), k.h, k.w, k.K); Own own(q, vl_quickshift_delete); before(c, q, buf, I); vl_quickshift_set_kernel_size(q, k.sigma); vl_quickshift_set_max_dist(q, k.tau); vl_quickshift_set_medoid(q, VL_TRUE); VT_ASSERT(c, vl_quickshift_get_medoid(q), "flag not stored"); vl_quickshift_process(q); VT_ASSERT(c, buf == I, "image modified"); dvec E; checkDensity(c, I, k, q, E); int N = k.h * k.w, R = (int)ceil(3 * k.sigma); int const *pa = vl_quickshift_get_parents(q); double sc = 0; for (double v : I) sc = std::max(sc, fabs(v)); sc = sc * sc * k.K + k.h * k.h + k.w * k.w;
  for (int i = 0; i < N; ++i) { VT_ASSERT(c, pa[i] >= 0 && pa[i] < N && inWindow(k, i, pa[i], R), "parent of %d is %d", i, pa[i]); if (pa[i] != i) c.nontrivial(); dvec m(k.K + 2, 0.0); for (int j = 0; j < N; ++j) if (inWindow(k, i, j, R)) { double F = exp(-D2(I, k, i, j) / (2 * k.sigma * k.sigma)); m[0] += F * (j % k.h); m[1] += F * (j / k.h); for (int z = 0; z < k.K; ++z) m[z + 2] += F * I[j + N * z]; } for (double &v : m) v /= E[i];
    auto cost = [&](int j) { double a = j % k.h - m[0], b = j / k.h - m[1], d = a * a + b * b; for (int z = 0; z < k.K; ++z) { double e = I[j + N * z] - m[z + 2]; d += e * e; } return d; }; double best = INFINITY; int bj = i; for (int j = 0; j < N; ++j) if (inWindow(k, i, j, R) && cost(j) < best) { best = cost(j); bj = j; } VT_ASSERT(c, cost(pa[i]) <= best + 1e-10 * sc, "pixel %d shifts to %d with mean squared distance %g above the minimum, reached at %d", i, pa[i], cost(pa[i]) - best, bj); }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
