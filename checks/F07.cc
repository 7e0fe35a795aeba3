// F07: LIOP descriptors.
#include "feat.h"
#include "vl_all.h"
static const double PI = 3.14159265358979323846;
typedef std::unique_ptr<VlLiopDesc, void (*)(VlLiopDesc *)> Own;
struct Cfg { int L, n, m; double r; float thr; };
static Cfg draw(vt::Ctx &c, bool integerRadius) { Cfg k; int half = (int)c.i(1, 12); k.L = 2 * half + 1; k.n = (int)c.pick({4, 4, 2, 3, 5, 1, 6}); k.m = (int)c.pick({6, 1, 2, 3, 9}); k.r = integerRadius || c.b() ? (double)c.i(1, half) : (double)(float)c.real(0.5, half); k.thr = c.pick({-5.f / 255, -5.f / 255, 0.f, -0.2f, 0.05f, 0.3f, -1.f}); c.note("side %d neighbours %d bins %d radius %g threshold %g", k.L, k.n, k.m, k.r, (double)k.thr); return k; }
static long fact(int n) { return n < 2 ? 1 : n * fact(n - 1); }
// 0: undecidable (ties at rounding level), 1: reference in h (normalised), 2: reference is zero
static int reference(const Cfg &k, const fvec &p, dvec &h, double slack, int &pixels) {
  int L = k.L, ce = (L - 1) / 2; double t = ce - k.r + 0.6; long t2 = (long)(t * t); std::vector<std::array<int, 2>> px; for (int y = 0; y < L; ++y) for (int x = 0; x < L; ++x) { if (x == 0 && y == 0) continue; long d = (long)(x - ce) * (x - ce) + (long)(y - ce) * (y - ce); if (d <= t2) px.push_back({x, y}); }
  pixels = (int)px.size(); if (!pixels) return 0; std::stable_sort(px.begin(), px.end(), [&](const std::array<int, 2> &a, const std::array<int, 2> &b) { return p[a[0] + a[1] * L] < p[b[0] + b[1] * L]; }); auto I = [&](int i) { return p[px[i][0] + px[i][1] * L]; }; double range = (double)I(pixels - 1) - I(0), thr = k.thr < 0 ? -(double)k.thr * range : k.thr; int area = pixels / k.m; if (area == 0) return 0; long F = fact(k.n); h.assign(F * k.m, 0.0);
  for (int b = 1; b < k.m; ++b) if (b * area < pixels && I(b * area) == I(b * area - 1)) return 0;
  double amp = std::max(1e-9, (double)vmaxabs(p));
  for (int i = 0; i < pixels; ++i) { int x = px[i][0] - ce, y = px[i][1] - ce; double a0 = atan2((double)y, (double)x); std::vector<std::pair<double, int>> v; for (int j = 0; j < k.n; ++j) { double X = px[i][0] + k.r * cos(a0 + 2 * PI * j / k.n), Y = px[i][1] + k.r * sin(a0 + 2 * PI * j / k.n); int ix = (int)floor(X), iy = (int)floor(Y); double fx = X - ix, fy = Y - iy; auto P = [&](int u, int w) { return u < 0 || w < 0 || u >= L || w >= L ? 0.0 : (double)p[u + w * L]; }; v.push_back({(1 - fy) * ((1 - fx) * P(ix, iy) + fx * P(ix + 1, iy)) + fy * ((1 - fx) * P(ix, iy + 1) + fx * P(ix + 1, iy + 1)), j}); }
    std::sort(v.begin(), v.end()); double w = 0; bool tie = false; for (size_t a = 0; a < v.size(); ++a) for (size_t b = a + 1; b < v.size(); ++b) { double d = v[b].first - v[a].first; if (fabs(d - thr) < slack * amp) { if (!(thr == 0 && vmaxabs(p) == 0)) return 0; } w += d > thr; if (b == a + 1 && d < slack * amp) tie = true; } if (w == 0) continue; if (tie) return 0;
    long q = 0; for (int a = 0; a < k.n; ++a) { int less = 0; for (int b = a + 1; b < k.n; ++b) less += v[b].second < v[a].second; q = q * (k.n - a) + less; } h[q + F * std::min(i / area, k.m - 1)] += w; }
  double s = 0; for (double v : h) s += v * v; if (s == 0) return 2; for (double &v : h) v /= sqrt(s); return 1;
}
VT_CHECK(definition, 60000, 1200000, "descriptor decided by the reference and not zero") {
  Cfg k = draw(c, false); fvec p; int cls = genimg(c, p, k.L, k.L, c.pick({1.0, 255.0})); c.note("%s", imclass(cls)); bool def = k.L >= 13 && c.chance(1, 8); VlLiopDesc *d; if (def) { k.n = 4; k.m = 6; k.r = 6; k.thr = -(5.0 / 255); d = vl_liopdesc_new_basic(k.L); } else { d = vl_liopdesc_new(k.n, k.m, (float)k.r, k.L); vl_liopdesc_set_intensity_threshold(d, k.thr); } Own own(d, vl_liopdesc_delete);
  VT_ASSERT(c, (long)vl_liopdesc_get_dimension(d) == fact(k.n) * k.m && (int)vl_liopdesc_get_num_neighbours(d) == k.n && (int)vl_liopdesc_get_num_spatial_bins(d) == k.m && vl_liopdesc_get_neighbourhood_radius(d) == (double)(float)k.r && vl_liopdesc_get_intensity_threshold(d) == k.thr, "parameters or dimension %ld not as documented", (long)vl_liopdesc_get_dimension(d)); size_t D = vl_liopdesc_get_dimension(d);
  std::unique_ptr<float[]> in(new float[p.size()]), out(new float[D]); std::copy(p.begin(), p.end(), in.get()); std::fill(out.get(), out.get() + D, NAN); if (c.chance(1, 3)) { fvec q; genimg(c, q, k.L, k.L, 255); vl_liopdesc_process(d, out.get(), q.data()); } vl_liopdesc_process(d, out.get(), in.get()); VT_ASSERT(c, !memcmp(in.get(), p.data(), p.size() * 4), "patch modified");
  dvec h; int px = 0; int r = reference(k, p, h, 2e-6, px); double s = 0; for (size_t i = 0; i < D; ++i) { VT_ASSERT(c, out[i] >= 0 && out[i] <= 1.0001, "element %zu is %g", i, (double)out[i]); s += out[i] * (double)out[i]; } VT_ASSERT(c, s == 0 || fabs(s - 1) < 1e-4, "squared norm %g", s); c.label(r == 0 ? "ties, only norm and range checked" : r == 1 ? "definition" : "no order pattern above threshold"); if (r == 1) c.nontrivial();
  if (r) for (size_t i = 0; i < D; ++i) VT_ASSERT(c, fabs(out[i] - (r == 1 ? h[i] : 0)) < 1e-5, "element %zu (bin %ld, permutation %ld) is %.7g, definition gives %.7g", i, (long)(i / fact(k.n)), (long)(i % fact(k.n)), (double)out[i], r == 1 ? h[i] : 0.0);
}
VT_CHECK(intensity_invariance, 30000, 600000, "descriptor not zero") {
  Cfg k = draw(c, true); if (k.thr > 0) k.thr = -k.thr; fvec p, q; genimg(c, p, k.L, k.L, 1.0, c.pick({0, 0, 3})); double g = exp(c.real(-2, 5)), o = c.real(-1, 1) * g; q = p; for (float &v : q) v = (float)(g * v + o); VlLiopDesc *d = vl_liopdesc_new(k.n, k.m, (float)k.r, k.L); Own own(d, vl_liopdesc_delete); vl_liopdesc_set_intensity_threshold(d, k.thr); dvec h; int px; if (reference(k, p, h, 2e-5, px) != 1) c.discard(); c.nontrivial(); c.note("gain %g offset %g", g, o); size_t D = vl_liopdesc_get_dimension(d); fvec a(D), b(D); vl_liopdesc_process(d, a.data(), p.data()); vl_liopdesc_process(d, b.data(), q.data());
  // pixel order may tie after rounding: compare only when the order of the pixel values is the same
  bool same = true; std::vector<int> ord(p.size()); for (size_t i = 0; i < ord.size(); ++i) ord[i] = (int)i; std::sort(ord.begin(), ord.end(), [&](int x, int y) { return p[x] < p[y]; }); for (size_t i = 1; i < ord.size(); ++i) if (!(p[ord[i - 1]] < p[ord[i]]) || !(q[ord[i - 1]] < q[ord[i]])) same = false; if (!same) c.discard(); for (size_t i = 0; i < D; ++i) VT_ASSERT(c, fabs(a[i] - b[i]) < 1e-5, "element %zu changes from %g to %g", i, (double)a[i], (double)b[i]);
}
int main(int a, char **b) { return vt::vt_main(a, b); }
