// F08: HOG features.
#include "feat.h"
#include "vl_all.h"
static const double PI = 3.14159265358979323846;
typedef std::unique_ptr<VlHog, void (*)(VlHog *)> Own;
struct Cfg { VlHogVariant v; int n, w, h, cell; bool tr, bil; };
static Cfg draw(vt::Ctx &c, bool multiple = false) { Cfg k; k.v = c.b() ? VlHogVariantUoctti : VlHogVariantDalalTriggs; k.cell = (int)c.pick({4, 8, 2, 1, 3, 5, 7, 6}); do { if (multiple) { k.w = k.cell * (int)c.i(1, 6); k.h = k.cell * (int)c.i(1, 6); } else { k.w = (int)c.i(4, 30); k.h = (int)c.i(4, 30); } if (k.w < 4 || k.h < 4 || (k.w + k.cell / 2) / k.cell < 1 || (k.h + k.cell / 2) / k.cell < 1) { k.w = std::max(k.w, 8); k.h = std::max(k.h, 8); if (multiple) { k.w = k.cell * ((k.w + k.cell - 1) / k.cell); k.h = k.cell * ((k.h + k.cell - 1) / k.cell); } } } while (0);
  k.n = (int)c.pick({9, 4, 3, 2, 5, 6, 8, 1}); k.tr = c.chance(1, 3); k.bil = c.b(); c.note("%s %d orientations, image %dx%d cell %d%s%s", k.v == VlHogVariantUoctti ? "UoCTTI" : "DalalTriggs", k.n, k.w, k.h, k.cell, k.tr ? " transposed" : "", k.bil ? " bilinear" : ""); return k; }
struct Hist { int W, H; dvec h; std::vector<char> amb; double scale; };  // 2n directed bins per cell, cells touched by ambiguous pixels
static void splat(Hist &r, const Cfg &k, int n2, int x, int y, double m, int b0, double w0, int b1, double w1, bool amb) {
  double hx = (x + 0.5) / k.cell - 0.5, hy = (y + 0.5) / k.cell - 0.5; int bx = (int)floor(hx), by = (int)floor(hy);
  for (int dy = 0; dy < 2; ++dy) for (int dx = 0; dx < 2; ++dx) { int X = bx + dx, Y = by + dy; if (X < 0 || Y < 0 || X >= r.W || Y >= r.H) continue; double w = (1 - fabs(hx - X)) * (1 - fabs(hy - Y)); if (w <= 0) continue; double *p = &r.h[(size_t)n2 * (X + Y * r.W)]; p[b0] += m * w * w0; if (b1 >= 0) p[b1] += m * w * w1; if (amb) r.amb[X + Y * r.W] = 1; } }
// orientation of a vector among 2n bins at k pi / n; ambiguous near a bin boundary (hard assignment only)
static void orient(const Cfg &k, double ang, double slack, int &b0, double &w0, int &b1, double &w1, bool &amb) {
  int n2 = 2 * k.n; double t = ang / (PI / k.n), f = floor(t), d = t - f; int i = (int)(((long)f % n2 + n2) % n2), j = (i + 1) % n2; amb = false;
  if (k.bil) { b0 = i; b1 = j; w0 = 1 - d; w1 = d; return; } b1 = -1; w1 = 0; w0 = 1; b0 = d < 0.5 ? i : j; amb = fabs(d - 0.5) < slack; }
static dvec finish(const Hist &r, const Cfg &k, std::vector<char> &bad) {
  int n = k.n, W = r.W, H = r.H; size_t S = (size_t)W * H; int D = k.v == VlHogVariantUoctti ? 3 * n + 4 : 4 * n; dvec o(D * S, 0.0), nn(S, 0.0); bad.assign(S, 0);
  for (size_t s = 0; s < S; ++s) for (int i = 0; i < n; ++i) { double v = r.h[2 * n * s + i] + r.h[2 * n * s + i + n]; nn[s] += v * v; }
  for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { for (int dy = -1; dy <= 1; ++dy) for (int dx = -1; dx <= 1; ++dx) bad[x + y * W] |= r.amb[std::min(W - 1, std::max(0, x + dx)) + W * std::min(H - 1, std::max(0, y + dy))];
    const double *p = &r.h[2 * n * (x + (size_t)y * W)]; double *q = &o[x + (size_t)y * W];
    for (int b = 0; b < 4; ++b) { int x0 = x - 1 + b % 2, y0 = y - 1 + b / 2; double e = 1e-4; for (int v = 0; v < 2; ++v) for (int u = 0; u < 2; ++u) e += nn[std::min(W - 1, std::max(0, x0 + u)) + W * std::min(H - 1, std::max(0, y0 + v))]; double f = 1 / sqrt(e), t = 0;
      for (int i = 0; i < n; ++i) { double hc = std::min(0.2, f * (p[i] + p[i + n])); t += hc; if (k.v == VlHogVariantUoctti) { q[S * i] += 0.5 * std::min(0.2, f * p[i]); q[S * (i + n)] += 0.5 * std::min(0.2, f * p[i + n]); q[S * (i + 2 * n)] += 0.5 * hc; } else q[S * (i + b * n)] = hc; }
      if (k.v == VlHogVariantUoctti) q[S * (3 * n + b)] = t / sqrt(18.0); } }
  return o; }
static Hist start(const Cfg &k) { Hist r; r.W = (k.w + k.cell / 2) / k.cell; r.H = (k.h + k.cell / 2) / k.cell; r.h.assign((size_t)2 * k.n * r.W * r.H, 0.0); r.amb.assign((size_t)r.W * r.H, 0); return r; }
// image given row-major; gradients by central differences, the channel of largest modulus
static Hist histImage(const Cfg &k, const fvec &p, int nc) {
  Hist r = start(k); double amp = std::max(1e-20, (double)vmaxabs(p));
  for (int y = 1; y < k.h - 1; ++y) for (int x = 1; x < k.w - 1; ++x) { double gx = 0, gy = 0, best = 0; bool tie = false; for (int z = 0; z < nc; ++z) { const float *q = &p[(size_t)z * k.w * k.h + x + (size_t)y * k.w]; double a = (double)q[1] - q[-1], b = (double)q[k.w] - q[-k.w], m = sqrt(a * a + b * b); if (m > 0 && fabs(m - best) < 1e-5 * amp && best > 0 && (fabs(a - gx) > 0 || fabs(b - gy) > 0)) tie = true; if (m > best) { if (m - best >= 1e-5 * amp) tie = false; best = m; gx = a; gy = b; } }
    if (best == 0) continue; int b0, b1; double w0, w1; bool amb; orient(k, atan2(gy, gx), std::min(0.05, 1e-6 * amp / best + 1e-4), b0, w0, b1, w1, amb); splat(r, k, 2 * k.n, x, y, best, b0, w0, b1, w1, amb || tie); }
  return r; }
static fvec runHog(vt::Ctx &c, VlHog *h, const Cfg &k, int D, int W, int H) {
  fvec out((size_t)D * W * H, NAN); VT_ASSERT(c, (int)vl_hog_get_width(h) == W && (int)vl_hog_get_height(h) == H && (int)vl_hog_get_dimension(h) == D, "array is %zux%zux%zu, documented size %dx%dx%d", (size_t)vl_hog_get_width(h), (size_t)vl_hog_get_height(h), (size_t)vl_hog_get_dimension(h), W, H, D); std::unique_ptr<float[]> t(new float[out.size()]); std::fill(t.get(), t.get() + out.size(), NAN); vl_hog_extract(h, t.get()); std::copy(t.get(), t.get() + out.size(), out.begin()); return out; }
// library output (cells possibly transposed) against the row-major reference
static void compare(vt::Ctx &c, const Cfg &k, const fvec &got, const dvec &ref, const std::vector<char> &bad, int W, int H, double tol) {
  size_t S = (size_t)W * H; int D = (int)(ref.size() / S); int und = 0; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { if (bad[x + y * W]) ++und; for (int d = 0; d < D; ++d) { double g = got[S * d + (k.tr ? y + (size_t)x * H : x + (size_t)y * W)], e = ref[S * d + x + (size_t)y * W]; double cap = k.v == VlHogVariantDalalTriggs ? 0.2 : d < 3 * k.n ? 0.4 : 0.2 * k.n / sqrt(18.0); VT_ASSERT(c, g >= 0 && g <= cap + 1e-6, "cell (%d,%d) element %d is %g, outside [0,%g]", x, y, d, g, cap); if (!bad[x + y * W]) VT_ASSERT(c, fabs(g - e) <= tol, "cell (%d,%d) element %d is %.7g, definition gives %.7g", x, y, d, g, e); } }
  c.label(und == 0 ? "all cells decided" : und < W * H ? "some cells undecided (orientation or channel ties)" : "all cells undecided"); if (und < W * H && *std::max_element(ref.begin(), ref.end()) > 0.01) c.nontrivial(); }
static void dirty(vt::Ctx &c, VlHog *h, const Cfg &k) { int m = (int)c.pick({0, 0, 1, 2}); if (m) { fvec q; bool same = m == 1; int w = same ? (k.tr ? k.h : k.w) : (int)c.i(8, 24), hh = same ? (k.tr ? k.w : k.h) : (int)c.i(8, 24); genimg(c, q, w, hh, 1.0); vl_hog_put_image(h, q.data(), w, hh, 1, k.cell > 8 ? 8 : k.cell); if (c.b()) { fvec o((size_t)vl_hog_get_width(h) * vl_hog_get_height(h) * vl_hog_get_dimension(h)); vl_hog_extract(h, o.data()); } c.label("object used before"); } }
VT_CHECK(image_definition, 60000, 1200000, "some decided cell and a feature above 0.01") {
  Cfg k = draw(c); if (k.n < 2) k.bil = false; int nc = (int)c.pick({1, 1, 3, 2}); double amp = c.pick({1.0, 255.0, 0.01}); fvec p; for (int z = 0; z < nc; ++z) { fvec q; int cls = genimg(c, q, k.w, k.h, amp); c.note("%s", imclass(cls)); if (c.chance(1, 4)) for (float &v : q) v += (float)(amp * 1e-3 * c.uni()); p.insert(p.end(), q.begin(), q.end()); }
  VlHog *h = vl_hog_new(k.v, k.n, k.tr); Own own(h, vl_hog_delete); vl_hog_set_use_bilinear_orientation_assignments(h, k.bil); VT_ASSERT(c, !!vl_hog_get_use_bilinear_orientation_assignments(h) == k.bil, "bilinear flag not stored"); dirty(c, h, k);
  size_t N = p.size(); std::unique_ptr<float[]> in(new float[N]); if (k.tr) { for (int z = 0; z < nc; ++z) for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) in[(size_t)z * k.w * k.h + y + (size_t)x * k.h] = p[(size_t)z * k.w * k.h + x + (size_t)y * k.w]; } else std::copy(p.begin(), p.end(), in.get()); fvec before(in.get(), in.get() + N);
  vl_hog_put_image(h, in.get(), k.tr ? k.h : k.w, k.tr ? k.w : k.h, nc, k.cell); VT_ASSERT(c, !memcmp(before.data(), in.get(), N * 4), "image modified"); Hist r = histImage(k, p, nc); std::vector<char> bad; dvec ref = finish(r, k, bad); int D = (int)(ref.size() / (r.W * r.H)); fvec out = runHog(c, h, k, D, k.tr ? r.H : r.W, k.tr ? r.W : r.H);
  compare(c, k, out, ref, bad, r.W, r.H, k.bil ? 5e-3 : 2e-5); fvec again = runHog(c, h, k, D, k.tr ? r.H : r.W, k.tr ? r.W : r.H); VT_ASSERT(c, !memcmp(out.data(), again.data(), out.size() * 4), "a second extraction gives different features");
}
VT_CHECK(polar_definition, 60000, 1200000, "some decided cell and a feature above 0.01") {
  Cfg k = draw(c); bool directed = c.b(); vt::Stream s = c.stream(); size_t N = (size_t)k.w * k.h; fvec m(N), a(N); double amp = c.pick({1.0, 100.0, 0.05}); int mode = (int)c.pick({0, 1, 2}); c.note("%s modulus scale %g angle mode %d", directed ? "directed" : "undirected", amp, mode);
  for (size_t i = 0; i < N; ++i) { m[i] = s.below(5) == 0 ? (s.below(2) ? 0.f : -1.f) : (float)(amp * s.uni()); a[i] = (float)(mode == 0 ? s.real(-PI, PI) : mode == 1 ? s.real(-20, 20) : PI / k.n * ((double)s.range(-2 * k.n, 4 * k.n) + (s.below(4) ? 0.0 : s.real(-0.4, 0.4))) ); }
  Hist r = start(k); for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) { double mm = m[x + (size_t)y * k.w]; if (mm <= 0) continue; int b0, b1; double w0, w1; bool amb; orient(k, a[x + (size_t)y * k.w], 1e-4, b0, w0, b1, w1, amb); if (!directed) { b0 %= k.n; if (b1 >= 0) b1 %= k.n; } splat(r, k, 2 * k.n, x, y, mm, b0, w0, b1, w1, amb); }
  VlHog *h = vl_hog_new(k.v, k.n, k.tr); Own own(h, vl_hog_delete); vl_hog_set_use_bilinear_orientation_assignments(h, k.bil); dirty(c, h, k);
  fvec M(N), A(N); for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) { size_t i = x + (size_t)y * k.w, j = k.tr ? y + (size_t)x * k.h : i; M[j] = m[i]; A[j] = a[i]; }
  vl_hog_put_polar_field(h, M.data(), A.data(), directed, k.tr ? k.h : k.w, k.tr ? k.w : k.h, k.cell); std::vector<char> bad; dvec ref = finish(r, k, bad); int D = (int)(ref.size() / (r.W * r.H)); fvec out = runHog(c, h, k, D, k.tr ? r.H : r.W, k.tr ? r.W : r.H); compare(c, k, out, ref, bad, r.W, r.H, 1e-4);
}
VT_CHECK(mirror, 30000, 120000, "some decided cell and a feature above 0.01") {
  Cfg k = draw(c, true); if (k.n < 2) k.bil = false; fvec p; int cls = genimg(c, p, k.w, k.h, 1.0); c.note("%s", imclass(cls)); VlHog *h = vl_hog_new(k.v, k.n, k.tr); Own own(h, vl_hog_delete); vl_hog_set_use_bilinear_orientation_assignments(h, k.bil);
  auto feed = [&](bool flip) { fvec in(p.size()); for (int y = 0; y < k.h; ++y) for (int x = 0; x < k.w; ++x) in[k.tr ? y + (size_t)x * k.h : x + (size_t)y * k.w] = p[(flip ? k.w - 1 - x : x) + (size_t)y * k.w]; vl_hog_put_image(h, in.data(), k.tr ? k.h : k.w, k.tr ? k.w : k.h, 1, k.cell); };
  Hist r = histImage(k, p, 1); std::vector<char> bad; dvec ref = finish(r, k, bad); int W = r.W, H = r.H, D = (int)(ref.size() / (W * H)); size_t S = (size_t)W * H; feed(false); fvec a = runHog(c, h, k, D, k.tr ? H : W, k.tr ? W : H); feed(true); fvec b = runHog(c, h, k, D, k.tr ? H : W, k.tr ? W : H); vl_index const *perm = vl_hog_get_permutation(h); std::vector<char> seen(D, 0); for (int d = 0; d < D; ++d) { VT_ASSERT(c, perm[d] >= 0 && perm[d] < D && !seen[perm[d]], "not a permutation at %d: %ld", d, (long)perm[d]); seen[perm[d]] = 1; }
  bool any = false; for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) if (!bad[x + y * W]) for (int d = 0; d < D; ++d) { auto at = [&](const fvec &f, int X, int e) { return (double)f[S * e + (k.tr ? y + (size_t)X * H : X + (size_t)y * W)]; }; double u = at(a, x, (int)perm[d]), v = at(b, W - 1 - x, d); if (u > 0.01) any = true; VT_ASSERT(c, fabs(u - v) <= (k.bil ? 5e-3 : 2e-5), "cell (%d,%d) element %d: mirrored image has %.7g, permuted features %.7g", x, y, d, v, u); } if (any) c.nontrivial();
}
VT_CHECK(render, 20000, 40000, "two or more cells") {
  VlHogVariant v = c.b() ? VlHogVariantUoctti : VlHogVariantDalalTriggs; int n = (int)c.i(1, 9), W = (int)c.i(1, 4), H = (int)c.i(1, 4); bool tr = c.b(); VlHog *h = vl_hog_new(v, n, tr); Own own(h, vl_hog_delete); int D = (int)vl_hog_get_dimension(h), g = (int)vl_hog_get_glyph_size(h); if (W * H > 1) c.nontrivial(); c.note("n %d cells %dx%d%s", n, W, H, tr ? " transposed" : ""); vt::Stream s = c.stream(); size_t S = (size_t)W * H; bool neg = c.chance(1, 4);
  // glyphs from unit descriptors
  std::vector<fvec> gl; for (int o = 0; o < n; ++o) { fvec d(D, 0.f), im((size_t)g * g, 0.f); d[o] = 1; vl_hog_render(h, im.data(), d.data(), 1, 1); double mass = 0, dev = 0, dir = o * PI / n + PI / 2; for (int y = 0; y < g; ++y) for (int x = 0; x < g; ++x) { float t = im[x + (size_t)y * g]; VT_ASSERT(c, t == 0 || t == 1, "glyph %d has value %g", o, (double)t); if (t) { double X = (tr ? y : x) - (g - 1) / 2.0, Y = (tr ? x : y) - (g - 1) / 2.0; mass += 1; dev = std::max(dev, fabs(-sin(dir) * X + cos(dir) * Y)); } } VT_ASSERT(c, mass >= g * 0.65 && mass <= g && dev <= 0.75, "glyph %d is not a segment orthogonal to its orientation (%g pixels, deviation %g)", o, mass, dev); gl.push_back(im); }
  fvec d(D * S); for (float &t : d) t = (float)(neg ? s.real(-1, 1) : s.uni()); std::unique_ptr<float[]> im(new float[S * g * g]()); fvec before = d; vl_hog_render(h, im.get(), d.data(), W, H); VT_ASSERT(c, d == before, "descriptor modified");
  for (int y = 0; y < H; ++y) for (int x = 0; x < W; ++x) { double lo = 0, hi = 0; dvec w(n); for (int o = 0; o < n; ++o) { for (int b = 0; b < (v == VlHogVariantUoctti ? 3 : 4); ++b) w[o] += d[S * (o + b * n) + x + y * W]; lo = std::min(lo, w[o]); hi = std::max(hi, w[o]); } for (int yy = 0; yy < g; ++yy) for (int xx = 0; xx < g; ++xx) { double e = 0; for (int o = 0; o < n; ++o) e += w[o] * gl[o][xx + (size_t)yy * g]; e = std::max(lo, std::min(hi, e)); double got = im[x * g + xx + (size_t)(y * g + yy) * W * g]; VT_ASSERT(c, fabs(got - e) < 1e-5, "cell (%d,%d) pixel (%d,%d) is %g, expected %g", x, y, xx, yy, got, e); } }
}
int main(int a, char **b) { return vt::vt_main(a, b); }
